#include "methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "methods/naive_bayes/multinomial_naive_bayes.hpp"
template class openml::naive_bayes::GaussianNB<double>;
template class openml::naive_bayes::MultinomialNB<double>;
template class openml::naive_bayes::BaseNB<double>;
