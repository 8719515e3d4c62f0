#pragma once
#include <string>
std::string* verif_file(const char* name);
bool verif_can_open(const char* name);
int verif_atom(double v, int fmt, int prec);
