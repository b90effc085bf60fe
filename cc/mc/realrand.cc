#define UniformDouble RealUniformDouble
#define Geometric RealGeometric
#define SecureURBG RealSecureURBG
#include "algorithms/rand.cc"
