// Stand-in for the logging library, which is not installed.
#pragma once
#include "absl/log/check.h"
namespace mcstub { struct Null { template<class T> Null& operator<<(const T&){ return *this;} }; }
#define LOG(x) ::mcstub::Null()
#define LOG_IF(x,c) ::mcstub::Null()
#define LOG_FIRST_N(x,n) ::mcstub::Null()
#define LOG_EVERY_N(x,n) ::mcstub::Null()
