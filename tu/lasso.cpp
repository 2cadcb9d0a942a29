#include "methods/linear_model/lasso_regression.hpp"
template class openml::linear_model::LassoRegression<double>;
template class openml::linear_model::BaseLinearModel<double>;
