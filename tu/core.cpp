#include "core.hpp"
#include "core/loss/huber_loss.hpp"
#include "sym.hpp"
using namespace openml;
using M = Eigen::MatrixXd; using V = Eigen::VectorXd;
using IV = Eigen::Vector<Eigen::Index, Eigen::Dynamic>;
using IM = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, Eigen::Dynamic>;
using VV = std::vector<std::vector<double>>; using SV = std::vector<double>;
template class openml::loss::LogLoss<double>;
template class openml::loss::MSE<double>;
template class openml::loss::SoftmaxLoss<double>;
template class openml::loss::HingeLoss<double>;
template class openml::loss::HuberLoss<double>;
template class openml::preprocessing::TransactionEncoder<double>;
void drive(M& x, M& y, V& v, V& w, IV& iv, VV& vv, SV& s, SV& s2, std::string& fp, double d, int a, bool b, std::size_t n, std::size_t m, std::vector<VV>& vvv, std::map<double,std::size_t>& mp) {
  common::max_element(mp);
  common::hstack<M>(x, y); common::vstack<M>(x, y); common::flatten<M, V>(x); common::flatten<SV>(vv);
  common::repeat<M>(x, a, a); common::argmax<M, V, IV>(x, a); common::argmin<M, V, IV>(x, a);
  common::argsort<M, IM, IV>(x, a, b); common::sort<M>(x, a, b); common::fmin<M>(x, d);
  common::vec2mat<M>(vv); common::vec2mat<V>(s); common::unique<V>(v); common::where<V, IV>(v); common::clip<M>(x, d, d);
  common::string_to_integer<double>(fp); common::combinations<double>(s, n); common::contains<double>(s, s2); common::merge<double>(s, s2);
  common::sort<double>(vv, a, b); common::remove_duplicate_rows<double>(vv); common::is_equal<double>(s, s2); common::sortrows<double>(vv, b);
  common::difference<double>(s, s2, b); common::argsort<double>(s, b); common::slice<double>(vv, n, n, n, n); common::norm<M>(x, n, a);
  math::sigmoid<M>(x); math::diagmat<M, V>(v); math::svd_flip<M, V, IV>(x, y, b); math::entropy<V>(v, w); math::gini<V>(v, w);
  math::row_norms<M, V>(x, b); math::softmax<M>(x, a); math::gaussian_fn<double>(d, d, d);
  math::cov<M>(x); math::var<M>(x, a); math::sum<M>(x, a); math::mean<M>(x, a); math::median<M, V>(x, a); math::center<M>(x);
  math::abs<M>(x); math::power<M>(x, d); math::sign<M>(x); math::norm2<M, V>(x, a); math::cumsum<M, V>(x, a); math::mode<M>(x, a);
  math::lu<M>(x, b); math::qr<M>(x, b); math::exact_svd<M, V>(x, b); math::randomized_svd<M, V, IV>(x, n, n, n, fp, b);
  math::pinv<M, V>(x, d); math::logdet<M>(x); math::logsumexp<M, V>(x, a); math::cholesky<M>(x, b); math::eig<M>(x);
  random::rand<M>(n, n); random::randn<M>(n, n); random::permutation<IV>(n); random::randint<int>(n, n);
  random::shuffle_data<M>(x, y, a); random::shuffle_data<M, V>(x, v, y, w);
  metric::mean_absolute_error<V>(v, w); metric::explained_variance_score<V>(v, w); metric::euclidean_distance<double>(s, s2);
  metric::manhattan_distance<double>(s, s2); metric::minkowski_distance<M>(x, y, a);
  data::loadtxt<M, V>(fp, x, v); data::loadtxt<double>(fp, vv); data::loadtxt<double>(fp, vv, s);
  data::train_test_split<M, V>(x, v, d, b); data::divide_on_feature<M>(x, n, d);
}
