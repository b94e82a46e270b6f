// Instantiates the templates the library leaves to its users, so that the
// extractor sees their resolved bodies.  Analysed only, never linked or run.
#include <condition_variable>
#include "graph/operations/operations.hpp"
#include "graph/operations/operation_utils.hpp"
#include "graph/connector/immutable/const_immutable.hpp"
#include "graph/connector/immutable/generator.hpp"
#include "graph/connector/immutable/shape_dep.hpp"
#include "graph/leaf/variable.hpp"
#include "memory/tensor_io.hpp"
#include "thread/shareable_cache.hpp"
#include "utils/gd_utils.hpp"
#include "utils/futils.hpp"

namespace nnet
{
template varptr<double> identity (varptr<double>);
template varptr<double> as_constant (varptr<double>);
template varptr<double> round (const varptr<double>);
template varptr<double> log (const varptr<double>);
template varptr<double> conditional (double, const varptr<double>, std::function<bool(double,double)>, std::string);
template varptr<double> conditional (const varptr<double>, double, std::function<bool(double,double)>, std::string);
template varptr<double> conditional (const varptr<double>, const varptr<double>, std::function<bool(double,double)>, std::string);
template varptr<double> eq (const varptr<double>, const varptr<double>);
template varptr<double> neq (const varptr<double>, const varptr<double>);
template varptr<double> binomial_sample (double, const varptr<double>);
template varptr<double> binomial_sample (const varptr<double>, double);
template varptr<double> binomial_sample (const varptr<double>, const varptr<double>);
template varptr<double> add_axial_a (const varptr<double>, const varptr<double>, size_t);
template varptr<double> add_axial_b (const varptr<double>, const varptr<double>, size_t);
template varptr<double> sub_axial_a (const varptr<double>, const varptr<double>, size_t);
template varptr<double> sub_axial_b (const varptr<double>, const varptr<double>, size_t);
template varptr<double> mul_axial_a (const varptr<double>, const varptr<double>, size_t);
template varptr<double> mul_axial_b (const varptr<double>, const varptr<double>, size_t);
template varptr<double> div_axial_a (const varptr<double>, const varptr<double>, size_t);
template varptr<double> div_axial_b (const varptr<double>, const varptr<double>, size_t);
template class generator<double>;
template class const_immutable<double>;
template class base_immutable<double>;
template class iconnector<double>;
template class const_init<double>;
template class rand_uniform<double>;
template class rand_normal<double>;
template class transfer_func<double>;
template class assign_func<double>;
template varptr<double> sigmoid (varptr<double>);
template varptr<double> tanh (varptr<double>);
template varptr<double> softmax (varptr<double>);
template bool write_inorder (std::vector<inode<double>*>&, std::string, std::string);
template bool read_inorder (std::vector<inode<double>*>&, std::string, std::string);
}
