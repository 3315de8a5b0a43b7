// Small helpers of the C++ drivers: cases are announced, failures printed, the run goes on.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <random>
#include <string>
#include <sstream>
#include <iostream>
#include <Eigen/Dense>
static std::mt19937 rng;
static bool thorough = false;
static int n_cases = 0, n_fails = 0;
static void init(int argc, char** argv) { rng.seed(argc > 1 ? atoi(argv[1]) : 1); thorough = argc > 2 && std::string(argv[2]) == "thorough"; setvbuf(stdout, nullptr, _IOLBF, 1 << 16); }
static int reps(int n) { return thorough ? 6 * n : n; }
static double rnd(double a = -2., double b = 2.) { return std::uniform_real_distribution<double>(a, b)(rng); }
static int irnd(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
static Eigen::MatrixXd mrnd(int r, int c) { Eigen::MatrixXd M(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) M(i, j) = rnd(); return M; }
static void CASE(const std::string& s) { n_cases++; printf("CASE %s\n", s.c_str()); }
static void FAIL(const std::string& s) { n_fails++; if (n_fails <= 20) printf("FAIL %s\n", s.c_str()); }
static void OK(bool c, const std::string& s) { if (!c) FAIL(s); }
template <class A, class B> static std::string show(const A& a, const B& b) { std::ostringstream o; Eigen::IOFormat f(8, 0, ",", ";"); o << " got " << a.format(f) << " want " << b.format(f); return o.str(); }
static void EQ(const Eigen::MatrixXd& got, const Eigen::MatrixXd& want, const std::string& s, double tol = 1e-9)
{
  if (got.rows() != want.rows() || got.cols() != want.cols()) { FAIL(s + ": shape" + show(got, want)); return; }
  for (int i = 0; i < got.rows(); i++) for (int j = 0; j < got.cols(); j++)
    if (!(std::fabs(got(i, j) - want(i, j)) <= tol * (1 + std::fabs(want(i, j))))) { FAIL(s + show(got, want)); return; }
}
static void EQ(double got, double want, const std::string& s, double tol = 1e-9) { if (!(std::fabs(got - want) <= tol * (1 + std::fabs(want)))) { std::ostringstream o; o.precision(12); o << s << " got " << got << " want " << want; FAIL(o.str()); } }
template <class F> static void THROWS(F f, const std::string& s) { try { f(); } catch (...) { return; } FAIL(s + ": no exception"); }
static int done() { printf("CASES %d\n", n_cases); return n_fails ? 1 : 0; }
