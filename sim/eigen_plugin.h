// Injected into Eigen::SparseMatrix (EIGEN_SPARSEMATRIX_PLUGIN): the one member newer than the installed Eigen 3.4.0
// that the library uses.  Sorted triplets are a special case of what setFromTriplets accepts.
template<typename InputIterators>
void setFromSortedTriplets(const InputIterators& begin, const InputIterators& end) { this->setFromTriplets(begin, end); }
