HEAD = r'''
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <thread>
#include <vector>
#include "rcutils/allocator.h"
#include "rcutils/testing/fault_injection.h"
#include "rmw/error_handling.h"
#include "rmw/qos_profiles.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw_dds_common/context.hpp"
#include "rmw_dds_common/graph_cache.hpp"
#include "rmw_dds_common/gid_utils.hpp"
using rmw_dds_common::GraphCache;
using rmw_dds_common::Context;
typedef rmw_dds_common::msg::ParticipantEntitiesInfo Msg;
static rmw_gid_t G(uint8_t a)
{
  rmw_gid_t g;
  std::memset(&g, 0, sizeof(g));
  std::memset(g.data, a, sizeof(g.data));
  return g;
}
static std::string same(const std::string & s) {return s;}
static bool add_w(GraphCache & c, uint8_t g, const char * t, const char * ty, uint8_t p)
{
  return c.add_writer(G(g), t, ty, G(p), rmw_qos_profile_default);
}
static bool add_r(GraphCache & c, uint8_t g, const char * t, const char * ty, uint8_t p)
{
  return c.add_reader(G(g), t, ty, G(p), rmw_qos_profile_default);
}
static std::vector<std::string> info(
  GraphCache & c, const char * topic, bool readers, bool & ok)
{
  auto a = rcutils_get_default_allocator();
  auto x = rmw_get_zero_initialized_topic_endpoint_info_array();
  rmw_ret_t r = readers ? c.get_readers_info_by_topic(topic, same, &a, &x) :
    c.get_writers_info_by_topic(topic, same, &a, &x);
  ok = r == RMW_RET_OK;
  std::vector<std::string> v;
  for (size_t i = 0; ok && i < x.size; ++i) {
    v.push_back(std::string(x.info_array[i].node_namespace) + "|" + x.info_array[i].node_name +
      "|" + x.info_array[i].topic_type);
  }
  if (ok) {(void)!rmw_topic_endpoint_info_array_fini(&x, &a);}
  return v;
}
// "name=type,type" per topic, or "error N"
static std::vector<std::string> names(
  GraphCache & c, const char * node, bool readers)
{
  auto a = rcutils_get_default_allocator();
  auto x = rmw_get_zero_initialized_names_and_types();
  rmw_ret_t r = !node ? c.get_names_and_types(same, same, &a, &x) :
    readers ? c.get_reader_names_and_types_by_node(node, "/", same, same, &a, &x) :
    c.get_writer_names_and_types_by_node(node, "/", same, same, &a, &x);
  std::vector<std::string> v;
  if (r != RMW_RET_OK) {
    v.push_back("error " + std::to_string(r));
    return v;
  }
  for (size_t i = 0; i < x.names.size; ++i) {
    std::string s = std::string(x.names.data[i]) + "=";
    for (size_t j = 0; j < x.types[i].size; ++j) {s += std::string(x.types[i].data[j]) + ",";}
    v.push_back(s);
  }
  (void)!rmw_names_and_types_fini(&x);
  return v;
}
// "namespace|name|enclave" of each node
static std::vector<std::string> nodes(GraphCache & c)
{
  auto a = rcutils_get_default_allocator();
  auto x = rcutils_get_zero_initialized_string_array(), y = x, z = x;
  std::vector<std::string> v;
  if (c.get_node_names(&x, &y, &z, &a) != RMW_RET_OK) {
    v.push_back("error");
    return v;
  }
  for (size_t i = 0; i < x.size; ++i) {
    v.push_back(std::string(y.data[i] ? y.data[i] : "(null)") + "|" +
      (x.data[i] ? x.data[i] : "(null)") + "|" + (z.data[i] ? z.data[i] : "(null)"));
  }
  (void)!rcutils_string_array_fini(&x);
  (void)!rcutils_string_array_fini(&y);
  (void)!rcutils_string_array_fini(&z);
  return v;
}
typedef std::vector<std::string> V;
#define CHECK(c) do {if (!(c)) {std::printf("FAILED: %s\n", #c); return 1;}} while (0)
'''
G = ['graph_cache', 'gid_utils']
C = ['context', 'graph_cache', 'gid_utils']
GC = 'src/graph_cache.cpp'
CX = 'src/context.cpp'
SEEDS = [
 dict(id='S21-endpoint-changes-owner', property='C14', srcs=G,
  needs='a GID that is announced again by another participant',
  breaks='adding a known GID changes the stored participant',
  edits=[(GC, '    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, pair.second);\n  return pair.second;\n}\n\nbool\nGraphCache::add_writer(\n  const rmw_gid_t & gid,\n  const std::string & topic_name,\n  const std::string & type_name,\n  const rmw_gid_t',
    '    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));\n  // an endpoint may be announced again through another participant\n  if (!pair.second && pair.first->second.topic_name == topic_name) {\n    pair.first->second.participant_gid = participant_gid;\n  }\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, pair.second);\n  return pair.second;\n}\n\nbool\nGraphCache::add_writer(\n  const rmw_gid_t & gid,\n  const std::string & topic_name,\n  const std::string & type_name,\n  const rmw_gid_t')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  bool ok;
  c.add_participant(G(1), "/a");
  c.add_node(G(1), "n", "/");
  c.associate_writer(G(5), G(1), "n", "/");
  CHECK(add_w(c, 5, "t", "T", 1));
  CHECK((info(c, "t", false, ok) == V{"/|n|T"}));
  CHECK(!add_w(c, 5, "t", "T", 2));
  CHECK((info(c, "t", false, ok) == V{"/|n|T"}));
  return 0;
}
'''),
 dict(id='S22-remove-falls-through', property='C14', srcs=G,
  needs='removal of a reader that is not known while a writer has the same GID',
  breaks='remove_entity(gid, is_reader = true) removes a writer',
  edits=[(GC, '  if (is_reader) {\n    return this->remove_reader(gid);\n  }\n  return this->remove_writer(gid);',
    '  // most entities are readers\n  bool removed = is_reader && this->remove_reader(gid);\n  return removed || this->remove_writer(gid);')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  CHECK(add_w(c, 5, "t", "T", 1));
  CHECK(add_r(c, 5, "t", "T", 1));
  CHECK(c.remove_entity(G(5), true));
  CHECK(!c.remove_entity(G(5), true));
  size_t n = 9;
  CHECK(c.get_writer_count("t", &n) == RMW_RET_OK && n == 1);
  return 0;
}
'''),
 dict(id='S23-new-enclave-drops-nodes', property='C15', srcs=G,
  needs='a known participant with nodes that is added again with another enclave',
  breaks='the nodes of the participant are lost',
  edits=[(GC, '    assert(ret.second);\n  }\n  it->second.enclave = enclave;',
    '    assert(ret.second);\n  } else if (!it->second.enclave.empty() && it->second.enclave != enclave) {\n    // a different enclave: the participant was restarted\n    it->second.node_entities_info_seq.clear();\n  }\n  it->second.enclave = enclave;')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  c.add_node(G(1), "n", "/");
  c.add_participant(G(1), "/a");
  CHECK((nodes(c) == V{"/|n|/a"}));
  c.add_participant(G(1), "/b");
  CHECK((nodes(c) == V{"/|n|/b"}));
  return 0;
}
'''),
 dict(id='S24-empty-message-forgets', property='C15', srcs=G,
  needs='an entities message without nodes from a known participant, followed by one with nodes',
  breaks='the enclave of the participant is lost',
  edits=[(GC, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n  GRAPH_CACHE',
    '  if (msg.node_entities_info_seq.empty()) {\n    // nothing left in this participant\n    participants_.erase(it);\n  } else {\n    it->second.node_entities_info_seq = msg.node_entities_info_seq;\n  }\n  GRAPH_CACHE')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  Msg m = c.add_node(G(1), "n", "/");
  Msg none = m;
  none.node_entities_info_seq.clear();
  c.update_participant_entities(none);
  CHECK(c.get_number_of_nodes() == 0);
  c.update_participant_entities(m);
  CHECK((nodes(c) == V{"/|n|/a"}));
  CHECK(c.remove_participant(G(1)));
  return 0;
}
'''),
 dict(id='S25-removes-every-duplicate', property='C16', srcs=G,
  needs='two nodes with the same name and namespace in one participant',
  breaks='removing one of them removes both',
  edits=[(GC, '''  // remove first element found
  auto to_remove = std::find_if(
    it''', '''  auto to_remove = std::remove_if(
    it'''), (GC, '  it->second.node_entities_info_seq.erase(to_remove);', '  it->second.node_entities_info_seq.erase(\n    to_remove, it->second.node_entities_info_seq.end());')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  c.add_node(G(1), "n", "/");
  c.add_node(G(1), "m", "/");
  c.add_node(G(1), "n", "/");
  Msg m = c.remove_node(G(1), "n", "/");
  CHECK(m.node_entities_info_seq.size() == 2);
  CHECK((nodes(c) == V{"/|m|/a", "/|n|/a"}));
  return 0;
}
'''),
 dict(id='S26-swap-with-last', property='C16', srcs=G,
  needs='removal of a node that is followed by at least two others',
  breaks='the order of the remaining nodes changes',
  edits=[(GC, '  it->second.node_entities_info_seq.erase(to_remove);', '  // constant time: the last node takes the place of the removed one\n  std::iter_swap(to_remove, std::prev(it->second.node_entities_info_seq.end()));\n  it->second.node_entities_info_seq.pop_back();')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  for (const char * n : {"a", "b", "c", "d"}) {c.add_node(G(1), n, "/");}
  c.remove_node(G(1), "d", "/");
  c.remove_node(G(1), "b", "/");
  CHECK((nodes(c) == V{"/|a|/a", "/|c|/a"}));
  c.add_node(G(1), "e", "/");
  c.remove_node(G(1), "a", "/");
  CHECK((nodes(c) == V{"/|c|/a", "/|e|/a"}));
  return 0;
}
'''),
 dict(id='S27-every-occurrence-dissociated', property='C17', srcs=G,
  needs='a writer GID that is associated twice with the same node',
  breaks='dissociating it once removes both occurrences',
  edits=[(GC, '''      auto it = std::find_if(
        info.writer_gid_seq.begin(),''', '''      auto it = std::remove_if(
        info.writer_gid_seq.begin(),'''), (GC, '''        info.writer_gid_seq.erase(it);''', '''        info.writer_gid_seq.erase(it, info.writer_gid_seq.end());''')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  c.add_node(G(1), "n", "/");
  c.associate_writer(G(5), G(1), "n", "/");
  c.associate_writer(G(6), G(1), "n", "/");
  c.associate_writer(G(5), G(1), "n", "/");
  Msg m = c.dissociate_writer(G(5), G(1), "n", "/");
  CHECK(m.node_entities_info_seq[0].writer_gid_seq.size() == 2);
  m = c.dissociate_writer(G(5), G(1), "n", "/");
  CHECK(m.node_entities_info_seq[0].writer_gid_seq.size() == 1);
  return 0;
}
'''),
 dict(id='S28-associated-once-per-node', property='C17', srcs=G,
  needs='a reader GID that already is the last one in the list of the node',
  breaks='associating it again does not append it',
  edits=[(GC, '''      info.reader_gid_seq.emplace_back();
      convert_gid_to_msg(&reader_gid, &info.reader_gid_seq.back());''',
'''      rmw_dds_common::msg::Gid gid_msg;
      convert_gid_to_msg(&reader_gid, &gid_msg);
      if (info.reader_gid_seq.empty() || !(info.reader_gid_seq.back() == gid_msg)) {
        info.reader_gid_seq.push_back(gid_msg);
      }''')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  c.add_node(G(1), "n", "/");
  c.associate_reader(G(5), G(1), "n", "/");
  c.associate_reader(G(6), G(1), "n", "/");
  c.associate_reader(G(5), G(1), "n", "/");
  Msg m = c.associate_reader(G(5), G(1), "n", "/");
  CHECK(m.node_entities_info_seq[0].reader_gid_seq.size() == 4);
  return 0;
}
'''),
 dict(id='S29-quiet-on-equal-message', property='C18', srcs=G,
  needs='an entities message with exactly the nodes that are already stored',
  breaks='a participant update that does not invoke the callback',
  edits=[(GC, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n  GRAPH_CACHE',
    '  if (it->second.node_entities_info_seq == msg.node_entities_info_seq) {\n    return;\n  }\n  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n  GRAPH_CACHE')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  int n = 0;
  c.add_participant(G(1), "/a");
  Msg m = c.add_node(G(1), "n", "/");
  std::function<void()> f = [&] {++n;};
  c.set_on_change_callback(f);
  c.associate_reader(G(5), G(1), "n", "/");
  CHECK(n == 1);
  c.update_participant_entities(m);
  CHECK(n == 2);
  c.update_participant_entities(m);
  CHECK(n == 3);
  return 0;
}
'''),
 dict(id='S30-count-by-prefix', property='C19', srcs=G,
  needs='a topic whose name continues the name asked for',
  breaks='endpoints of other topics are counted',
  edits=[(GC, '''      return elem.second.topic_name == topic_name;
    });
  return RMW_RET_OK;''', '''      return elem.second.topic_name.compare(0, topic_name.size(), topic_name) == 0;
    });
  return RMW_RET_OK;''')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  add_w(c, 1, "rt/chatter", "T", 1);
  add_w(c, 2, "rt/chatter2", "T", 1);
  add_w(c, 3, "rt/other", "T", 1);
  size_t n = 9;
  CHECK(c.get_writer_count("rt/chatter", &n) == RMW_RET_OK && n == 1);
  CHECK(c.get_writer_count("rt/chat", &n) == RMW_RET_OK && n == 0);
  return 0;
}
'''),
 dict(id='S31-node-of-the-previous-endpoint', property='C20', srcs=G,
  needs='two writers of one participant on the topic, of which the second is not listed by a node',
  breaks='an endpoint whose node is not discovered gets the node of the endpoint before it',
  edits=[(GC, '''  size_t i = 0;
  for (const auto & entity_pair : entities) {
    if (entity_pair''', '''  size_t i = 0;
  std::string node_name;
  std::string node_namespace;
  for (const auto & entity_pair : entities) {
    if (entity_pair'''), (GC, '''    std::string node_name;
    std::string node_namespace;
    switch''', '''    switch'''), (GC, '''      case EndpointCreator::UNDISCOVERED_ROS_NODE:
        node_name =''', '''      case EndpointCreator::UNDISCOVERED_ROS_NODE:
        if (!node_name.empty()) {
          break;
        }
        node_name =''')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  bool ok;
  c.add_participant(G(1), "/a");
  c.add_node(G(1), "n", "/");
  c.associate_writer(G(5), G(1), "n", "/");
  add_w(c, 4, "t", "T", 1);
  add_w(c, 5, "t", "T", 1);
  V v = info(c, "t", false, ok);
  CHECK((v == V{"_NODE_NAMESPACE_UNKNOWN_|_NODE_NAME_UNKNOWN_|T", "/|n|T"}));
  add_w(c, 6, "t", "T", 1);
  v = info(c, "t", false, ok);
  CHECK((v == V{"_NODE_NAMESPACE_UNKNOWN_|_NODE_NAME_UNKNOWN_|T", "/|n|T",
      "_NODE_NAMESPACE_UNKNOWN_|_NODE_NAME_UNKNOWN_|T"}));
  return 0;
}
'''),
 dict(id='S32-participant-without-nodes-is-bare', property='C20', srcs=G,
  needs='an endpoint of a known participant that has no nodes (yet)',
  breaks='the endpoint is reported as not created by ROS',
  edits=[(GC, '  if (participant_map.end() == it) {\n    return {"", ""', '  if (participant_map.end() == it || it->second.node_entities_info_seq.empty()) {\n    return {"", ""')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  bool ok;
  add_r(c, 5, "t", "T", 1);
  CHECK((info(c, "t", true, ok) == V{"_CREATED_BY_BARE_DDS_APP_|_CREATED_BY_BARE_DDS_APP_|T"}));
  c.add_participant(G(1), "/a");
  CHECK((info(c, "t", true, ok) == V{"_NODE_NAMESPACE_UNKNOWN_|_NODE_NAME_UNKNOWN_|T"}));
  return 0;
}
'''),
 dict(id='S33-name-stored-late', property='C21', srcs=G,
  needs='failure to allocate the list of types of a topic',
  breaks='the copy of the topic name is leaked',
  edits=[(GC, '    topic_names_and_types->names.data[index] = topic_name;\n\n', ''), (GC, '    size_t type_index = 0;\n', '    topic_names_and_types->names.data[index] = topic_name;\n    size_t type_index = 0;\n')],
  demo=HEAD + r'''
static long live = 0, countdown = -1;
static void * al(size_t n, void *) {if (countdown >= 0 && countdown-- == 0) {return nullptr;} ++live; return malloc(n);}
static void * za(size_t n, size_t m, void *) {if (countdown >= 0 && countdown-- == 0) {return nullptr;} ++live; return calloc(n, m);}
static void * re(void * p, size_t n, void *) {if (!p) {++live;} return realloc(p, n);}
static void de(void * p, void *) {if (p) {--live;} free(p);}
int main()
{
  GraphCache c;
  add_r(c, 5, "t", "T", 1);
  add_w(c, 6, "u", "T", 1);
  auto a = rcutils_get_default_allocator();
  a.allocate = al;
  a.zero_allocate = za;
  a.reallocate = re;
  a.deallocate = de;
  for (long k = 0; k < 40; ++k) {
    auto x = rmw_get_zero_initialized_names_and_types();
    countdown = k;
    rmw_ret_t r = c.get_names_and_types(same, same, &a, &x);
    countdown = -1;
    rmw_reset_error();
    if (r == RMW_RET_OK) {
      (void)!rmw_names_and_types_fini(&x);
      CHECK(live == 0);
      return 0;
    }
    CHECK(live == 0);
  }
  return 1;
}
'''),
 dict(id='S34-enclaves-kept-on-failure', property='C21', srcs=G,
  needs='an allocation failure after the enclave list was created (with enclaves requested)',
  breaks='the enclave list is neither released nor zeroed',
  edits=[(GC, '''  if (enclaves) {
    rcutils_ret = rcutils_string_array_fini(enclaves);''', '''  if (enclaves && enclaves->size == node_names->size) {
    rcutils_ret = rcutils_string_array_fini(enclaves);''')],
  demo=HEAD + r'''
static long live = 0, countdown = -1;
static void * al(size_t n, void *) {if (countdown >= 0 && countdown-- == 0) {return nullptr;} ++live; return malloc(n);}
static void * za(size_t n, size_t m, void *) {if (countdown >= 0 && countdown-- == 0) {return nullptr;} ++live; return calloc(n, m);}
static void * re(void * p, size_t n, void *) {if (!p) {++live;} return realloc(p, n);}
static void de(void * p, void *) {if (p) {--live;} free(p);}
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  c.add_node(G(1), "n", "/");
  c.add_node(G(1), "m", "/");
  auto a = rcutils_get_default_allocator();
  a.allocate = al;
  a.zero_allocate = za;
  a.reallocate = re;
  a.deallocate = de;
  for (long k = 0; k < 40; ++k) {
    auto x = rcutils_get_zero_initialized_string_array(), y = x, z = x;
    countdown = k;
    rmw_ret_t r = c.get_node_names(&x, &y, &z, &a);
    countdown = -1;
    rmw_reset_error();
    if (r == RMW_RET_OK) {
      for (auto p : {&x, &y, &z}) {(void)!rcutils_string_array_fini(p);}
      CHECK(live == 0);
      return 0;
    }
    CHECK(!z.data);
    CHECK(live == 0);
  }
  return 1;
}
'''),
 dict(id='S35-first-type-wins', property='C22', srcs=G,
  needs='a topic that is used with two types by endpoints of the same kind',
  breaks='only one of the types is reported',
  edits=[(GC, '''    if ("" != demangled_topic_name) {
      topics[demangled_topic_name].insert(demangle_type(item.second.topic_type));
    }''', '''    if ("" != demangled_topic_name) {
      auto & types = topics[demangled_topic_name];
      if (types.empty() || item.second.topic_type < *types.begin()) {
        types.insert(demangle_type(item.second.topic_type));
      }
    }''')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  add_r(c, 5, "t", "B", 1);
  add_r(c, 6, "t", "A", 1);
  add_w(c, 7, "u", "A", 1);
  CHECK((names(c, nullptr, false) == V{"t=A,B,", "u=A,"}));
  add_w(c, 8, "u", "C", 1);
  CHECK((names(c, nullptr, false) == V{"t=A,B,", "u=A,C,"}));
  return 0;
}
'''),
 dict(id='S36-stops-at-unknown-gid', property='C23', srcs=G,
  needs='a node whose list holds a GID that is not (or no longer) known before one that is',
  breaks='the endpoints after the unknown one are not reported',
  edits=[(GC, '''    if (it == entities_map.end()) {
      continue;
    }''', '''    if (it == entities_map.end()) {
      // not discovered yet
      break;
    }''')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  c.add_node(G(1), "n", "/");
  for (uint8_t g : {5, 6, 7}) {c.associate_writer(G(g), G(1), "n", "/");}
  add_w(c, 5, "t", "T", 1);
  CHECK((names(c, "n", false) == V{"t=T,"}));
  add_w(c, 7, "u", "T", 1);
  CHECK((names(c, "n", false) == V{"t=T,", "u=T,"}));
  return 0;
}
'''),
 dict(id='S37-skips-nodes-without-endpoints', property='C23', srcs=G,
  needs='two nodes of the same name, of which the first one has no endpoints',
  breaks='the endpoints of the second node are reported',
  edits=[(GC, '''        node.node_name == node_name &&
        node.node_namespace == node_namespace)
      {
        return &node;
      }
    }
  }
  return nullptr;''', '''        node.node_name == node_name &&
        node.node_namespace == node_namespace)
      {
        found = &node;
        if (!node.reader_gid_seq.empty() || !node.writer_gid_seq.empty()) {
          return found;
        }
      }
    }
  }
  return found;'''), (GC, '''  for (const auto & participant : participant_map) {
    for (const auto & node :''', '''  const rmw_dds_common::msg::NodeEntitiesInfo * found = nullptr;
  for (const auto & participant : participant_map) {
    for (const auto & node :''')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(1), "/a");
  c.add_participant(G(2), "/b");
  c.add_node(G(1), "n", "/");
  c.add_node(G(2), "n", "/");
  add_r(c, 5, "t", "T", 2);
  c.associate_reader(G(5), G(2), "n", "/");
  CHECK(names(c, "n", true).empty());
  CHECK((names(c, "m", true) == V{"error " + std::to_string(RMW_RET_NODE_NAME_NON_EXISTENT)}));
  return 0;
}
'''),
 dict(id='S38-enclave-remembered', property='C24', srcs=G,
  needs='a participant with nodes and an empty enclave after one with another enclave',
  breaks='its nodes are listed with the enclave of the participant before it',
  edits=[(GC, '''    size_t j = 0;
    for (const auto & elem : participants_) {
      const auto & nodes_info = elem.second;''', '''    size_t j = 0;
    const char * enclave = "";
    for (const auto & elem : participants_) {
      const auto & nodes_info = elem.second;
      if (!nodes_info.enclave.empty()) {
        enclave = nodes_info.enclave.c_str();
      }'''), (GC, '''            nodes_info.enclave.c_str(), *allocator);''', '''            enclave, *allocator);''')],
  demo=HEAD + r'''
int main()
{
  GraphCache c;
  c.add_participant(G(2), "/b");
  Msg m = c.add_node(G(2), "n", "/");
  rmw_gid_t g = G(1);
  rmw_dds_common::convert_gid_to_msg(&g, &m.gid);
  c.update_participant_entities(m);
  CHECK((nodes(c) == V{"/|n|", "/|n|/b"}));
  g = G(3);
  rmw_dds_common::convert_gid_to_msg(&g, &m.gid);
  c.update_participant_entities(m);
  CHECK((nodes(c) == V{"/|n|", "/|n|/b", "/|n|"}));
  return 0;
}
'''),
 dict(id='S39-timeout-counts-as-published', property='C25', srcs=C,
  needs='a publish callback that returns RMW_RET_TIMEOUT',
  breaks='the addition returns OK and stays although publishing failed',
  edits=[(CX, '''  if (nullptr == pub || nullptr == publish_callback ||
    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))
  {
    return false;
  }
  return true;''', '''  if (nullptr == pub || nullptr == publish_callback) {
    return false;
  }
  switch (publish_callback(pub, static_cast<const void *>(&msg))) {
    case RMW_RET_OK:
    case RMW_RET_TIMEOUT:  // queued by the middleware
      return true;
    default:
      return false;
  }''')],
  demo=HEAD + r'''
int main()
{
  rmw_publisher_t pub;
  rmw_ret_t ret = RMW_RET_OK;
  Context c;
  c.gid = G(1);
  c.pub = &pub;
  c.publish_callback = [&](const rmw_publisher_t *, const void *) {return ret;};
  c.graph_cache.add_participant(G(1), "/a");
  CHECK(c.add_node_graph("n", "/") == RMW_RET_OK);
  for (rmw_ret_t r : {RMW_RET_ERROR, RMW_RET_BAD_ALLOC, RMW_RET_TIMEOUT}) {
    ret = r;
    CHECK(c.add_node_graph("m", "/") == RMW_RET_ERROR);
    CHECK(c.graph_cache.get_number_of_nodes() == 1);
  }
  return 0;
}
'''),
 dict(id='S40-client-rollback-only-writer', property='C25', srcs=C,
  needs='publication that fails while a client is added whose two GIDs are equal in no byte',
  breaks='the reader of the client stays associated',
  edits=[(CX, '''    static_cast<void>(graph_cache.dissociate_reader(
      response_subscriber_gid, gid, name, namespace_));
    static_cast<void>(graph_cache.dissociate_writer(
      request_publisher_gid, gid, name, namespace_));''', '''    for (const rmw_gid_t & endpoint : {request_publisher_gid, response_subscriber_gid}) {
      static_cast<void>(graph_cache.dissociate_writer(endpoint, gid, name, namespace_));
    }''')],
  demo=HEAD + r'''
int main()
{
  rmw_publisher_t pub;
  rmw_ret_t ret = RMW_RET_OK;
  Msg last;
  Context c;
  c.gid = G(1);
  c.pub = &pub;
  c.publish_callback = [&](const rmw_publisher_t *, const void * m) {
      last = *static_cast<const Msg *>(m);
      return ret;
    };
  c.graph_cache.add_participant(G(1), "/a");
  CHECK(c.add_node_graph("n", "/") == RMW_RET_OK);
  ret = RMW_RET_ERROR;
  CHECK(c.add_client_graph(G(5), G(6), "n", "/") == RMW_RET_ERROR);
  ret = RMW_RET_OK;
  CHECK(c.add_publisher_graph(G(7), "n", "/") == RMW_RET_OK);
  CHECK(last.node_entities_info_seq.size() == 1);
  CHECK(last.node_entities_info_seq[0].reader_gid_seq.empty());
  CHECK(last.node_entities_info_seq[0].writer_gid_seq.size() == 1);
  return 0;
}
'''),
 dict(id='S41-client-state-before-reader', property='C26', srcs=C,
  needs='removal of a client whose reader is still associated',
  breaks='the published message still lists the reader of the removed client',
  edits=[(CX, '''  graph_cache.dissociate_writer(
    request_publisher_gid, gid, name, namespace_);

  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_reader(
    response_subscriber_gid, gid, name, namespace_);
''', '''  // the writer goes last: requests may still be sent while the reader is removed
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_writer(
    request_publisher_gid, gid, name, namespace_);

  graph_cache.dissociate_reader(
    response_subscriber_gid, gid, name, namespace_);
''')],
  demo=HEAD + r'''
int main()
{
  rmw_publisher_t pub;
  Msg last;
  Context c;
  c.gid = G(1);
  c.pub = &pub;
  c.publish_callback = [&](const rmw_publisher_t *, const void * m) {
      last = *static_cast<const Msg *>(m);
      return RMW_RET_OK;
    };
  c.graph_cache.add_participant(G(1), "/a");
  CHECK(c.add_node_graph("n", "/") == RMW_RET_OK);
  CHECK(c.add_client_graph(G(5), G(6), "n", "/") == RMW_RET_OK);
  CHECK(c.remove_client_graph(G(5), G(6), "n", "/") == RMW_RET_OK);
  CHECK(last.node_entities_info_seq[0].reader_gid_seq.empty());
  CHECK(last.node_entities_info_seq[0].writer_gid_seq.empty());
  return 0;
}
'''),
 dict(id='S42-removal-needs-a-publisher', property='C26', srcs=C,
  needs='removal of a node after the publisher of the context was destroyed',
  breaks='the node stays in the graph',
  edits=[(CX, '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.remove_node''', '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  if (nullptr == pub) {
    return RMW_RET_ERROR;
  }
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.remove_node''')],
  demo=HEAD + r'''
int main()
{
  rmw_publisher_t pub;
  Context c;
  c.gid = G(1);
  c.pub = &pub;
  c.publish_callback = [&](const rmw_publisher_t *, const void *) {return RMW_RET_OK;};
  c.graph_cache.add_participant(G(1), "/a");
  CHECK(c.add_node_graph("n", "/") == RMW_RET_OK);
  c.pub = nullptr;
  CHECK(c.remove_node_graph("n", "/") == RMW_RET_ERROR);
  CHECK(c.graph_cache.get_number_of_nodes() == 0);
  return 0;
}
'''),
 dict(id='S43-looks-before-it-locks', property='C27', srcs=G,
  needs='a participant that is removed or added by another thread between the look-up and the lock',
  breaks='remove_participant reads the participants without holding the lock',
  edits=[(GC, '''  std::lock_guard<std::mutex> guard(mutex_);
  bool ret = participants_.erase(participant_gid) > 0;''', '''  // unknown participants are common: do not wait for the lock for them
  if (participants_.count(participant_gid) == 0) {
    return false;
  }
  std::lock_guard<std::mutex> guard(mutex_);
  bool ret = participants_.erase(participant_gid) > 0;''')],
  demo='#include <atomic>\n#include <chrono>\n' + HEAD + r'''
int main()
{
  GraphCache c;
  std::atomic<int> inside{0}, asking{0}, answered{0};
  bool early = false;
  const auto relaxed = std::memory_order_relaxed;     // orders nothing between the two threads
  const auto pause = [] {std::this_thread::sleep_for(std::chrono::milliseconds(1));};
  // called while the graph is locked, in the middle of a change
  c.set_on_change_callback([&] {
      inside.store(1, relaxed);
      while (!asking.load(relaxed)) {pause();}
      for (int i = 0; i < 1500 && !answered.load(relaxed); ++i) {pause();}
      early = answered.load(relaxed);
    });
  std::thread a([&] {c.add_participant(G(1), "/a");});
  std::thread b([&] {
      while (!inside.load(relaxed)) {pause();}
      asking.store(1, relaxed);
      c.remove_participant(G(2));
      answered.store(1, relaxed);
    });
  a.join();
  b.join();
  CHECK(!early);          // it read the graph while it was being changed
  return 0;
}
'''),
 dict(id='S44-published-after-the-lock', property='C27', srcs=C,
  needs='two threads that change the endpoints of the context at the same time',
  breaks='the update of the graph and its publication are in different critical sections: an older '
         'state may be published after a newer one',
  edits=[(CX, '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_writer(
    publisher_gid, gid, name, namespace_);
''', '''  std::unique_lock<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_writer(
    publisher_gid, gid, name, namespace_);
  // the graph is up to date: publishing may take long
  guard.unlock();
''')],
  demo=r'''
#define _GNU_SOURCE 1
#include <pthread.h>
static int g_locked = 0, g_held = 0;
''' + HEAD + r'''
#include <dlfcn.h>
// counts the locks held
extern "C" int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
  static auto f = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
  ++g_locked;
  return f(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m) noexcept
{
  static auto f = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
  --g_locked;
  return f(m);
}
int main()
{
  rmw_publisher_t pub;
  Context c;
  c.gid = G(1);
  c.pub = &pub;
  c.publish_callback = [&](const rmw_publisher_t *, const void *) {
      g_held = g_locked;
      return RMW_RET_OK;
    };
  c.graph_cache.add_participant(G(1), "/a");
  g_locked = 0;
  CHECK(c.add_node_graph("n", "/") == RMW_RET_OK && g_held == 1);
  CHECK(c.add_publisher_graph(G(5), "n", "/") == RMW_RET_OK && g_held == 1);
  CHECK(c.remove_publisher_graph(G(5), "n", "/") == RMW_RET_OK && g_held == 1);
  return 0;
}
'''),
]
