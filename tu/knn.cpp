#include "methods/neighbors/k_nearest_neighbors.hpp"
template class openml::neighbors::KNearestNeighbors<double>;
