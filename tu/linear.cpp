#include "methods/linear_model/linear_regression.hpp"
#include "methods/linear_model/ridge_regression.hpp"
#include "methods/linear_model/logistic_regression.hpp"
#include "methods/linear_model/softmax_regression.hpp"
#include "methods/linear_model/perceptron.hpp"
template class openml::linear_model::LinearRegression<double>;
template class openml::linear_model::RidgeRegression<double>;
template class openml::linear_model::LogisticRegression<double>;
template class openml::linear_model::SoftmaxRegression<double>;
template class openml::linear_model::Perceptron<double>;
template class openml::linear_model::BaseLinearModel<double>;
