// Uses whose operands alias (see tool/inst.cc): the result is that of the
// operation on the values the operands had before.
#include "scl_prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
typedef scl::Vec<F> V;
typedef scl::Mat<F> M;
inline void inv(const M& m) { spec_assume(m.mValues.size() == m.mRows * m.mCols); }

void AL__VecAddOwn(V& v) {
  std::vector<F> r;
  for (N i = 0; i < v.mValues.size(); ++i) r.push_back(v.mValues[i] + v.mValues[i]);
  v.mValues = r;
}
void AL__VecSubtractOwn(V& v) {
  std::vector<F> r;
  for (N i = 0; i < v.mValues.size(); ++i) r.push_back(F(0));
  v.mValues = r;
}
void AL__VecMultiplyOwn(V& v) {
  std::vector<F> r;
  for (N i = 0; i < v.mValues.size(); ++i) r.push_back(v.mValues[i] * v.mValues[i]);
  v.mValues = r;
}
void AL__VecScaleByOwn(V& v, N k) {
  spec_assume(k < v.mValues.size());
  F c = v.mValues[k];
  std::vector<F> r;
  for (N i = 0; i < v.mValues.size(); ++i) r.push_back(v.mValues[i] * c);
  v.mValues = r;
}
void AL__MatAddOwn(M& m) {
  inv(m);
  std::vector<F> r;
  for (N i = 0; i < m.mValues.size(); ++i) r.push_back(m.mValues[i] + m.mValues[i]);
  m.mValues = r;
}
void AL__MatSubtractOwn(M& m) {
  inv(m);
  std::vector<F> r;
  for (N i = 0; i < m.mValues.size(); ++i) r.push_back(F(0));
  m.mValues = r;
}
void AL__MatMultiplyOwn(M& m) {
  inv(m);
  std::vector<F> r;
  for (N i = 0; i < m.mValues.size(); ++i) r.push_back(m.mValues[i] * m.mValues[i]);
  m.mValues = r;
}
void AL__MatScaleByOwn(M& m, N i, N j) {
  inv(m);
  spec_assume(i < m.mRows); spec_assume(j < m.mCols);
  F c = m.mValues[i * m.mCols + j];
  std::vector<F> r;
  for (N k = 0; k < m.mValues.size(); ++k) r.push_back(m.mValues[k] * c);
  m.mValues = r;
}
void AL__RowScaleByOwn(M& a, N row, N col) {
  inv(a);
  spec_assume(row < a.mRows); spec_assume(col < a.mCols);
  F c = a.mValues[row * a.mCols + col];
  std::vector<F> r;
  for (N i = 0; i < a.mRows; ++i)
    for (N j = 0; j < a.mCols; ++j) r.push_back(i == row ? a.mValues[i * a.mCols + j] * c : a.mValues[i * a.mCols + j]);
  a.mValues = r;
}
void AL__RowAddByOwn(M& a, N dst, N op, N col) {
  inv(a);
  spec_assume(dst < a.mRows); spec_assume(op < a.mRows); spec_assume(dst != op); spec_assume(col < a.mCols);
  F c = a.mValues[dst * a.mCols + col];
  std::vector<F> r;
  for (N i = 0; i < a.mRows; ++i)
    for (N j = 0; j < a.mCols; ++j)
      r.push_back(i == dst ? a.mValues[i * a.mCols + j] + a.mValues[op * a.mCols + j] * c : a.mValues[i * a.mCols + j]);
  a.mValues = r;
}
}  // namespace spec
