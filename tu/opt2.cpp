#include "core.hpp"
#include "core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp"
template class openml::optimizer::NesterovMomentumUpdate<double>;
