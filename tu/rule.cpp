#include "methods/rule_model/apriori.hpp"
template class openml::rule_model::Apriori<std::size_t>;
