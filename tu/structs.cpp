#include "core.hpp"
template class openml::tree::KDTree<double>;
struct HTNode { bool is_leaf; std::map<std::vector<std::size_t>, std::size_t> bucket; std::map<std::size_t, std::shared_ptr<HTNode>> children; HTNode(): is_leaf(true) {} };
template class openml::tree::HashTree<HTNode, std::size_t>;
