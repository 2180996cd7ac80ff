#include <systemc.h>
int sc_main(int, char **) { return 0; }
