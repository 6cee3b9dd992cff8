// src/etc/debug.cpp prints through the Python interpreter; output is not part
// of any property, so its three functions are empty here.
#include <string>
#include "src/etc/types.h"
void print(Mat M) {}
void print(double x) {}
void print(std::string x) {}
