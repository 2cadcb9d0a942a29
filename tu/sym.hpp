// Uninterpreted policy classes: declared, never defined. The analysis treats their members as
// unknown pure functions of their arguments, so what holds here holds for every policy.
#pragma once
#include <eigen3/Eigen/Dense>
namespace sym {
using M = Eigen::MatrixXd; using V = Eigen::VectorXd;
struct Loss { double evaluate(const M&, const V&, const M&) const; M gradient(const M&, const V&, const M&) const; };
struct Update { M update(const M&, const M&, double) const; };
struct Decay { double compute(std::size_t) const; };
}
