// What the translation units of one program offer each other. Every unit fills one table; all of it is ordinary use of
// the library: objects created in one unit are passed to, changed, moved and destroyed in others.
#pragma once
#include <vector>
#include <string>
#include <iostream>
#include <sstream>
#include <memory>
namespace c29 {
namespace T=TooN;
const int Dyn=T::Dynamic, Rsz=T::Resizable;
typedef T::Matrix<Dyn,3,double,T::ColMajor> HalfC;
typedef decltype(std::declval<T::Matrix<>&>()[0]) RowView;
typedef decltype(std::declval<T::Matrix<>&>().T()) TView;
typedef decltype(std::declval<T::Matrix<>&>().slice(0,0,1,1)) BlockView;
typedef decltype(std::declval<T::Vector<>&>().slice(0,1)) SliceView;
struct Boxed { T::Vector<3> a; T::Matrix<2> b; T::SE3<> c; int tag; };
struct Api {
	const char* options; int id;
	std::vector<size_t> (*layout)();
	void (*globals)(std::vector<double>& start, std::vector<double>& now);
	int (*use)(int k,const double*in,double*out);
	// vectors
	T::Vector<> (*make_v)(const double*,int); T::Vector<4> (*make_s)(const double*); T::Vector<150> (*make_l)(const double*); T::Vector<Rsz> (*make_r)(const double*,int);
	double (*sum_v)(T::Vector<>); double (*sum_s)(T::Vector<4>); double (*sum_l)(T::Vector<150>); double (*sum_r)(T::Vector<Rsz>);
	void (*add_v)(T::Vector<>&,const T::Vector<>&); void (*add_s)(T::Vector<4>&,const T::Vector<>&); void (*add_l)(T::Vector<150>&,const T::Vector<150>&);
	void (*assign_r)(T::Vector<Rsz>&,const T::Vector<>&); void (*resize_r)(T::Vector<Rsz>&,int); void (*swap_v)(T::Vector<>&,T::Vector<>&); void (*swap_l)(T::Vector<150>&,T::Vector<150>&);
	T::Vector<> (*pass_v)(T::Vector<>&&); T::Vector<> (*sum_of)(const T::Vector<>&,const T::Vector<>&); double (*dot)(const T::Vector<>&,const T::Vector<>&);
	void (*write_slice)(SliceView,const double*); T::Vector<>* (*new_v)(const double*,int); void (*delete_v)(T::Vector<>*);
	// matrices
	T::Matrix<> (*make_m)(const double*,int,int); T::Matrix<2,3> (*make_m23)(const double*); HalfC (*make_h)(const double*,int);
	double (*sum_m)(T::Matrix<>); double (*sum_m23)(T::Matrix<2,3>); double (*sum_h)(HalfC);
	void (*assign_m)(T::Matrix<>&,const T::Matrix<>&); T::Matrix<> (*product)(const T::Matrix<>&,const T::Matrix<>&); T::Matrix<> (*pass_m)(T::Matrix<>&&); void (*assign_h)(T::Matrix<>&,const HalfC&);
	void (*write_row)(RowView,const double*); void (*scale_t)(TView,double); void (*write_block)(BlockView,const double*); T::Vector<> (*times)(const T::Matrix<>&,const T::Vector<>&);
	// structures, containers, exceptions, streams, solvers
	Boxed (*make_box)(const double*,int); std::vector<double> (*open_box)(Boxed);
	void (*push)(std::vector<T::Vector<> >&,const double*,int); void (*erase)(std::vector<T::Vector<> >&,int);
	void (*raise)(const double*,int); T::Vector<> (*catch_)(void(*)(const double*,int),const double*,int);
	void (*print)(std::ostream&,const T::Matrix<>&); void (*read)(std::istream&,T::Matrix<>&);
	T::SVD<>* (*new_svd)(const T::Matrix<>&); T::Vector<> (*svd_backsub)(T::SVD<>&,const T::Vector<>&); void (*delete_svd)(T::SVD<>*);
	void (*wls_add)(T::WLS<3>&,const double*); T::Vector<3> (*wls_solve)(T::WLS<3>&); T::WLS<3> (*wls_new)();
	T::SE3<> (*se3_mul)(T::SE3<>,const T::SE3<>&);
};
extern std::vector<const Api*>& registry();
}
