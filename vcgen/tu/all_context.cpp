// Translation unit given to the extractor: the repository's own sources, unchanged.
#include "gid_utils.cpp"
#include "graph_cache.cpp"
#include "context.cpp"
