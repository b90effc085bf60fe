// Stand-in for the logging library, which is not installed: a failed check ends the program.
#pragma once
#include <cstdlib>
#include <iostream>
namespace mcstub { struct Fatal { std::ostream& s() { return std::cerr; } ~Fatal(){ std::abort(); } template<class T> Fatal& operator<<(const T& t){ std::cerr << t; return *this;} };
struct V { void operator&(const Fatal&){} void operator&(Fatal&&){} }; }
#define CHECK(c) if (c) {} else ::mcstub::Fatal()
#define CHECK_EQ(a,b) CHECK((a)==(b))
#define CHECK_NE(a,b) CHECK((a)!=(b))
#define CHECK_GT(a,b) CHECK((a)>(b))
#define CHECK_GE(a,b) CHECK((a)>=(b))
#define CHECK_LT(a,b) CHECK((a)<(b))
#define CHECK_LE(a,b) CHECK((a)<=(b))
#define CHECK_OK(a) CHECK((a).ok())
#define DCHECK(c) CHECK(c)
#define DCHECK_GE(a,b) CHECK_GE(a,b)
#define DCHECK_GT(a,b) CHECK_GT(a,b)
#define DCHECK_LE(a,b) CHECK_LE(a,b)
#define DCHECK_LT(a,b) CHECK_LT(a,b)
#define DCHECK_EQ(a,b) CHECK_EQ(a,b)
#define DCHECK_OK(a) CHECK_OK(a)
#define DCHECK_NE(a,b) CHECK_NE(a,b)
