#include "engine.h"

int main(int argc, char** argv) { return pbt_main(argc, argv); }
