auto cwiseSquare() const { return derived().cwiseProduct(derived()); }
auto cwiseGreater(const Scalar& s) const { return (derived().array() > s); }
