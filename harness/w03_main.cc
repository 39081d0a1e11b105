// the program as it is, under another name for the linker
int main(int argc, char const** argv) __asm__("server_main");
#include "web/server/src/main.cc"
