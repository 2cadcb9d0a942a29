#include "methods/mixture/gaussian_mixture.hpp"
template class openml::mixture_model::GaussianMixture<double>;
