// Uses whose operands alias: what the operators do must not depend on it.
namespace alias {
template <typename R> void AddOwn(R& x) { x += x; }
template <typename R> void SubtractOwn(R& x) { x -= x; }
template <typename R> void MultiplyOwn(R& x) { x *= x; }
template <typename R> void DivideOwn(R& x) { x /= x; }
void VecAddOwn(scl::Vec<F61>& v) { v.AddInPlace(v); }
void VecSubtractOwn(scl::Vec<F61>& v) { v.SubtractInPlace(v); }
void VecMultiplyOwn(scl::Vec<F61>& v) { v.MultiplyEntryWiseInPlace(v); }
void VecScaleByOwn(scl::Vec<F61>& v, std::size_t i) { v.ScalarMultiplyInPlace(v[i]); }
void MatAddOwn(scl::Mat<F61>& a) { a.AddInPlace(a); }
void MatSubtractOwn(scl::Mat<F61>& a) { a.SubtractInPlace(a); }
void MatMultiplyOwn(scl::Mat<F61>& a) { a.MultiplyEntryWiseInPlace(a); }
void MatScaleByOwn(scl::Mat<F61>& a, std::size_t i, std::size_t j) { a.ScalarMultiplyInPlace(a(i, j)); }
void RowScaleByOwn(scl::Mat<F61>& a, std::size_t r, std::size_t c) { scl::details::MultiplyRow(a, r, a(r, c)); }
void RowAddByOwn(scl::Mat<F61>& a, std::size_t d, std::size_t o, std::size_t c) { scl::details::AddRows(a, d, o, a(d, c)); }
template void AddOwn<F61>(F61&);
template void AddOwn<F127>(F127&);
template void AddOwn<Z62>(Z62&);
template void AddOwn<Z123>(Z123&);
template void SubtractOwn<F61>(F61&);
template void SubtractOwn<F127>(F127&);
template void SubtractOwn<Z62>(Z62&);
template void SubtractOwn<Z123>(Z123&);
template void MultiplyOwn<F61>(F61&);
template void MultiplyOwn<F127>(F127&);
template void MultiplyOwn<Z62>(Z62&);
template void MultiplyOwn<Z123>(Z123&);
template void DivideOwn<F61>(F61&);
template void DivideOwn<F127>(F127&);
template void DivideOwn<Z62>(Z62&);
template void DivideOwn<Z123>(Z123&);
}  // namespace alias
