#include "methods/cluster/spectral_clustering.hpp"
template class openml::cluster::SpectralClustering<double>;
