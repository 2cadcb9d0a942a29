#include "methods/cluster/kmeans.hpp"
template class openml::cluster::KMeans<double>;
