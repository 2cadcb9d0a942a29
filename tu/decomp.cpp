#include "methods/decomposition/pca.hpp"
#include "methods/decomposition/truncated_svd.hpp"
template class openml::decomposition::PCA<double>;
template class openml::decomposition::TruncatedSVD<double>;
template class openml::decomposition::BaseDecompositionModel<double>;
