// forced include for the command line clients: in the native replay main and exit are renamed so that the harness can call
// the client; the symbolic build keeps main and lets the executor intercept exit
#pragma once
#include <cstdlib>
#include <cstring>
#include <string>
#ifndef __clang__
extern "C" void verif_exit(int) __attribute__((noreturn));
namespace std { using ::verif_exit; }
#define exit verif_exit
#define main cli_main
#endif
