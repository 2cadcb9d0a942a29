#include "core.hpp"
#include "core/loss/huber_loss.hpp"
#include "sym.hpp"

template class openml::optimizer::BaseOptimizer<double, sym::Loss, sym::Update, sym::Decay>;
template class openml::optimizer::BaseOptimizer<double, sym::Loss>;
template class openml::optimizer::SGD<double, sym::Loss, sym::Update, sym::Decay>;
template class openml::optimizer::SAG<double, sym::Loss, sym::Update, sym::Decay>;
template class openml::optimizer::TruncatedGradient<double, sym::Loss, sym::Update, sym::Decay>;
template class openml::optimizer::SCD<double, sym::Loss>;
template class openml::optimizer::LineSearchParams<double>;
template class openml::optimizer::LBFGS<double, sym::Loss, openml::optimizer::LineSearchParams<double>>;
template class openml::optimizer::LineSearchBacktracking<double, sym::Loss, openml::optimizer::LineSearchParams<double>>;
template class openml::optimizer::LineSearchBracketing<double, sym::Loss, openml::optimizer::LineSearchParams<double>>;
template class openml::optimizer::VanillaUpdate<double>;
template class openml::optimizer::MomentumUpdate<double>;
template class openml::optimizer::StepDecay<double>;
template class openml::optimizer::ExponentialDecay<double>;
// the default arguments of the public constructors
inline void defaults(const Eigen::MatrixXd& m, const Eigen::VectorXd& v) {
    using namespace openml::optimizer;
    sym::Loss l; sym::Update u; sym::Decay d; LineSearchParams<double> p;
    StepDecay<double> a(0.1); ExponentialDecay<double> b(0.1);
    SGD<double, sym::Loss, sym::Update, sym::Decay> c(m, l, u, d);
    SAG<double, sym::Loss, sym::Update, sym::Decay> e(v, l, u, d);
    TruncatedGradient<double, sym::Loss, sym::Update, sym::Decay> f(v, l, u, d);
    SCD<double, sym::Loss> g(v, l);
    LBFGS<double, sym::Loss, LineSearchParams<double>> h(v, l, p);
}
