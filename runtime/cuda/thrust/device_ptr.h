#ifndef VERIF_THRUST_H
#define VERIF_THRUST_H
#include <cuda_runtime.h>
#include <functional>
#include <iterator>
#include <vector>
namespace thrust
{
template<class A, class B> using pair = std::pair<A, B>;
template<class T> struct device_reference
{
	typedef typename std::remove_const<T>::type V;
	T*	p;
	operator V() const { V v; fakecuda::mem_read(p, sizeof v, &v); return v; }
	device_reference& operator=(const V& v) { fakecuda::mem_fill((void*)p, &v, sizeof v, 1); return *this; }
};
template<class T> struct device_ptr
{
	typedef ptrdiff_t difference_type;
	typedef T value_type;
	T*	p;
	explicit device_ptr(T* q = nullptr) : p(q) {}
	device_ptr operator+(ptrdiff_t n) const { return device_ptr(p + n); }
	device_ptr operator-(ptrdiff_t n) const { return device_ptr(p - n); }
	ptrdiff_t operator-(const device_ptr& o) const { return p - o.p; }
	bool operator==(const device_ptr& o) const { return p == o.p; }
	bool operator!=(const device_ptr& o) const { return p != o.p; }
	device_reference<T> operator[](ptrdiff_t n) const { return device_reference<T>{ p + n }; }
	device_reference<T> operator*() const { return device_reference<T>{ p }; }
	T* get() const { return p; }
};
template<class T> device_ptr<T> device_pointer_cast(T* p) { return device_ptr<T>(p); }
template<class T> T* raw_pointer_cast(device_ptr<T> p) { return p.p; }
template<class T> std::vector<typename std::remove_const<T>::type> nb_fetch(device_ptr<T> a, device_ptr<T> b)
{
	std::vector<typename std::remove_const<T>::type> v(b - a);
	if(!v.empty()) { fakecuda::mem_read(a.p, v.size() * sizeof v[0], v.data()); }
	return v;
}
template<class T, class U> void fill(device_ptr<T> a, device_ptr<T> b, const U& x) { T v(x); fakecuda::mem_fill(a.p, &v, sizeof v, b - a); }
template<class T, class U> device_ptr<T> fill_n(device_ptr<T> a, size_t n, const U& x) { fill(a, a + n, x); return a + n; }
template<class T> pair<device_ptr<T>, device_ptr<T>> minmax_element(device_ptr<T> a, device_ptr<T> b)
{
	auto	v = nb_fetch(a, b);
	auto	r = std::minmax_element(v.begin(), v.end());
	return { a + (r.first - v.begin()), a + (r.second - v.begin()) };
}
template<class T> device_ptr<T> max_element(device_ptr<T> a, device_ptr<T> b) { auto v = nb_fetch(a, b); return a + (std::max_element(v.begin(), v.end()) - v.begin()); }
template<class T> device_ptr<T> min_element(device_ptr<T> a, device_ptr<T> b) { auto v = nb_fetch(a, b); return a + (std::min_element(v.begin(), v.end()) - v.begin()); }
template<class T, class C> device_ptr<T> max_element(device_ptr<T> a, device_ptr<T> b, C c) { auto v = nb_fetch(a, b); return a + (std::max_element(v.begin(), v.end(), c) - v.begin()); }
template<class T, class I, class O> I reduce(device_ptr<T> a, device_ptr<T> b, I i, O o) { for(auto& x : nb_fetch(a, b)) { i = o(i, x); } return i; }
template<class T, class F, class I, class O> I transform_reduce(device_ptr<T> a, device_ptr<T> b, F f, I i, O o) { for(auto& x : nb_fetch(a, b)) { i = o(i, f(x)); } return i; }
template<class T> struct maximum { T operator()(const T& a, const T& b) const { return a < b ? b : a; } };
template<class T> struct minimum { T operator()(const T& a, const T& b) const { return b < a ? b : a; } };
template<class T> struct plus { T operator()(const T& a, const T& b) const { return a + b; } };
}
#endif
