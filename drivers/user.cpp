// The driver for processes, with the example of a process written outside the library
// in the place of the provided one of the same content.
#define SM_HEADERS "user_headers.inc"
#define SM_TABLE "user_table.inc"
#include "sm.cpp"
