// Stand-in for the parts of gsl-lite that dottorrent uses (the library is not installed here): the contract macros,
// with the library's default behaviour (a failed condition terminates the program).
#pragma once
#include <exception>
#include <cstddef>
#include <utility>
#define gsl_Expects(x) ((x) ? (void)0 : std::terminate())
#define gsl_Ensures(x) ((x) ? (void)0 : std::terminate())
#define Expects(x) gsl_Expects(x)
#define Ensures(x) gsl_Ensures(x)
namespace gsl { template <class P> using not_null = P; template <class P> using owner = P; using index = std::ptrdiff_t; }
namespace gsl_lite = gsl;
