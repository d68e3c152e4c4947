// concrete harness for C27: every pair of graph / context operations from two threads, built with
// the thread sanitizer
#include "graph_model.hpp"
#include "rmw_dds_common/context.hpp"

using rmw_dds_common::Context;

#include <dlfcn.h>
// the C++ library changes the trees in code without instrumentation: a write to the header of the
// tree stands for it
namespace std
{
__attribute__((noinline)) static void touch(_Rb_tree_node_base & h)
{
  auto volatile & p = h._M_parent;
  p = static_cast<_Rb_tree_node_base *>(p);
}
void _Rb_tree_insert_and_rebalance(
  const bool left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & h) noexcept
{
  static auto f = reinterpret_cast<void (*)(bool, _Rb_tree_node_base *, _Rb_tree_node_base *,
      _Rb_tree_node_base &)>(dlsym(RTLD_NEXT,
    "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"));
  touch(h);
  f(left, x, p, h);
}
_Rb_tree_node_base * _Rb_tree_rebalance_for_erase(
  _Rb_tree_node_base * const z, _Rb_tree_node_base & h) noexcept
{
  static auto f = reinterpret_cast<_Rb_tree_node_base * (*)(_Rb_tree_node_base *,
      _Rb_tree_node_base &)>(dlsym(RTLD_NEXT,
    "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"));
  touch(h);
  return f(z, h);
}
}  // namespace std

static Key key(uint8_t a) {Key k; k.fill(a); return k;}
static const rmw_gid_t P = to_gid(key(1)), E = to_gid(key(2)), Q = to_gid(key(3));
static std::string id(const std::string & s) {return s;}

static void fini(rmw_names_and_types_t & x) {(void)!rmw_names_and_types_fini(&x);}

typedef std::function<void(Context &)> Op;
static std::vector<std::pair<const char *, Op>> ops()
{
  std::vector<std::pair<const char *, Op>> v;
  auto q = rmw_qos_profile_default;
  auto h = rosidl_get_zero_initialized_type_hash();
  v.push_back({"add_writer", [=](Context & c) {c.graph_cache.add_writer(E, "t", "T", h, P, q);}});
  v.push_back({"add_reader", [=](Context & c) {c.graph_cache.add_reader(E, "t", "T", h, P, q);}});
  v.push_back({"add_entity", [=](Context & c) {
      c.graph_cache.add_entity(E, "t", "T", h, P, q, true);
      c.graph_cache.add_entity(E, "t", "T", h, P, q, false);}});
  v.push_back({"remove_writer", [](Context & c) {c.graph_cache.remove_writer(E);}});
  v.push_back({"remove_reader", [](Context & c) {c.graph_cache.remove_reader(E);}});
  v.push_back({"remove_entity", [](Context & c) {
      c.graph_cache.remove_entity(E, true); c.graph_cache.remove_entity(E, false);}});
  v.push_back({"add_participant", [](Context & c) {
      c.graph_cache.add_participant(P, "/x"); c.graph_cache.add_participant(Q, "/x");}});
  v.push_back({"remove_participant", [](Context & c) {
      c.graph_cache.remove_participant(Q); c.graph_cache.remove_participant(E);}});
  v.push_back({"update_participant_entities", [](Context & c) {
      c.graph_cache.update_participant_entities(msg_of(key(3), {MNode{"q", "/", {}, {}}}));}});
  v.push_back({"add_node", [](Context & c) {c.graph_cache.add_node(P, "o", "/");}});
  v.push_back({"remove_node", [](Context & c) {
      c.graph_cache.add_node(P, "o2", "/"); c.graph_cache.remove_node(P, "o2", "/");}});
  v.push_back({"associate_writer", [](Context & c) {
      c.graph_cache.associate_writer(E, P, "n", "/");}});
  v.push_back({"associate_reader", [](Context & c) {
      c.graph_cache.associate_reader(E, P, "n", "/");}});
  v.push_back({"dissociate_writer", [](Context & c) {
      c.graph_cache.dissociate_writer(E, P, "n", "/");}});
  v.push_back({"dissociate_reader", [](Context & c) {
      c.graph_cache.dissociate_reader(E, P, "n", "/");}});
  v.push_back({"get_writer_count", [](Context & c) {
      size_t n; (void)!c.graph_cache.get_writer_count("t", &n);}});
  v.push_back({"get_reader_count", [](Context & c) {
      size_t n; (void)!c.graph_cache.get_reader_count("t", &n);}});
  for (int rd = 0; rd < 2; ++rd) {
    v.push_back({rd ? "get_readers_info_by_topic" : "get_writers_info_by_topic", [=](Context & c) {
        auto a = rcutils_get_default_allocator();
        auto x = rmw_get_zero_initialized_topic_endpoint_info_array();
        rmw_ret_t r = rd ? c.graph_cache.get_readers_info_by_topic("t", id, &a, &x) :
        c.graph_cache.get_writers_info_by_topic("t", id, &a, &x);
        if (r == RMW_RET_OK) {(void)!rmw_topic_endpoint_info_array_fini(&x, &a);}
      }});
    v.push_back({rd ? "get_reader_names_and_types_by_node" : "get_writer_names_and_types_by_node",
        [=](Context & c) {
          auto a = rcutils_get_default_allocator();
          auto x = rmw_get_zero_initialized_names_and_types();
          rmw_ret_t r = rd ?
          c.graph_cache.get_reader_names_and_types_by_node("n", "/", id, id, &a, &x) :
          c.graph_cache.get_writer_names_and_types_by_node("n", "/", id, id, &a, &x);
          if (r == RMW_RET_OK) {fini(x);}
        }});
  }
  v.push_back({"get_names_and_types", [](Context & c) {
      auto a = rcutils_get_default_allocator();
      auto x = rmw_get_zero_initialized_names_and_types();
      if (c.graph_cache.get_names_and_types(id, id, &a, &x) == RMW_RET_OK) {fini(x);}
    }});
  v.push_back({"get_number_of_nodes", [](Context & c) {
      (void)c.graph_cache.get_number_of_nodes();}});
  v.push_back({"get_node_names", [](Context & c) {
      auto a = rcutils_get_default_allocator();
      auto x = rcutils_get_zero_initialized_string_array(), y = x, z = x;
      (void)!c.graph_cache.get_node_names(&x, &y, &z, &a);
      (void)!rcutils_string_array_fini(&x);
      (void)!rcutils_string_array_fini(&y);
      (void)!rcutils_string_array_fini(&z);
    }});
  v.push_back({"print", [](Context & c) {std::ostringstream o; o << c.graph_cache;}});
  v.push_back({"clear_on_change_callback", [](Context & c) {
      c.graph_cache.clear_on_change_callback();}});
  v.push_back({"set_on_change_callback", [](Context & c) {
      std::function<void()> f = [] {};
      c.graph_cache.set_on_change_callback(f);}});
  v.push_back({"add_node_graph", [](Context & c) {(void)!c.add_node_graph("x", "/");}});
  v.push_back({"remove_node_graph", [](Context & c) {
      // a node that was rolled back must not be removed
      if (c.add_node_graph("y", "/") == RMW_RET_OK) {(void)!c.remove_node_graph("y", "/");}}});
  v.push_back({"add_publisher_graph", [](Context & c) {(void)!c.add_publisher_graph(E, "n", "/");}});
  v.push_back({"remove_publisher_graph", [](Context & c) {
      (void)!c.remove_publisher_graph(E, "n", "/");}});
  v.push_back({"add_subscriber_graph", [](Context & c) {
      (void)!c.add_subscriber_graph(E, "n", "/");}});
  v.push_back({"remove_subscriber_graph", [](Context & c) {
      (void)!c.remove_subscriber_graph(E, "n", "/");}});
  v.push_back({"add_client_graph", [](Context & c) {(void)!c.add_client_graph(E, Q, "n", "/");}});
  v.push_back({"remove_client_graph", [](Context & c) {
      (void)!c.remove_client_graph(E, Q, "n", "/");}});
  v.push_back({"add_service_graph", [](Context & c) {(void)!c.add_service_graph(E, Q, "n", "/");}});
  v.push_back({"remove_service_graph", [](Context & c) {
      (void)!c.remove_service_graph(E, Q, "n", "/");}});
  return v;
}

int main(int, char ** argv)
{
  g_prop = "C27";
  double budget = argv[1] && argv[2] ? atof(argv[2]) : 5;
  auto v = ops();
  auto t0 = std::chrono::steady_clock::now();
  size_t n = 0;
  for (int round = 0; ; ++round) {
    for (size_t i = 0; i < v.size(); ++i) {
      for (size_t j = i; j < v.size(); ++j) {
        if (round > 0 && std::chrono::duration<double>(
            std::chrono::steady_clock::now() - t0).count() > budget)
        {
          std::cout << n << " concrete cases of C27 run on the real code (pairs of concurrent "
            "operations), none fails" << std::endl;
          return 0;
        }
        Context c;
        rmw_publisher_t pub;
        c.pub = &pub;
        c.gid = P;
        bool fail = round % 2 == 1;
        c.publish_callback = [fail](const rmw_publisher_t *, const void *) {
            return fail ? RMW_RET_ERROR : RMW_RET_OK;
          };
        c.graph_cache.add_participant(P, "/e");
        c.graph_cache.add_node(P, "n", "/");
        std::function<void()> f = [] {};
        c.graph_cache.set_on_change_callback(f);
        if (round % 3 != 2) {
          auto h = rosidl_get_zero_initialized_type_hash();
          auto q = rmw_qos_profile_default;
          for (auto g : {E, Q}) {
            c.graph_cache.add_writer(g, "t", "T", h, P, q);
            c.graph_cache.add_reader(g, "t", "T", h, P, q);
            c.graph_cache.associate_writer(g, P, "n", "/");
            c.graph_cache.associate_reader(g, P, "n", "/");
          }
        }
        // the pair is named before it runs: a report follows it
        std::cout << "PAIR " << v[i].first << " / " << v[j].first << "\n";
        std::cout.flush();
        std::atomic<int> ready{0};
        auto go = [&](const Op & op) {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < 2) {}
            op(c);
          };
        std::thread a([&] {go(v[i].second);}), b([&] {go(v[j].second);});
        a.join();
        b.join();
        ++n;
      }
    }
  }
}
