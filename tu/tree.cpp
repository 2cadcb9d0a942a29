#include "methods/tree/decision_tree_classifier.hpp"
#include "methods/tree/decision_tree_regressor.hpp"
template class openml::decision_tree::DecisionTreeClassifier<double>;
template class openml::decision_tree::DecisionTreeRegressor<double>;
