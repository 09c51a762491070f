// The replay tool of the repository, callable.
#define main replay_main
#include "tools/replay.cc"
