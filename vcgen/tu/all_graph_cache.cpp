// Translation unit given to the extractor: the repository's own sources, unchanged, plus an
// instantiation of the one template member no source file of the repository instantiates.
#include "gid_utils.cpp"
#include "graph_cache.cpp"
template void rmw_dds_common::GraphCache::set_on_change_callback<std::function<void()>>(
  std::function<void()> &&);
