// The source forwarder of the repository, callable.
#include <cstring>
#include "loopback.hh"
#include <boost/asio.hpp>
#define main forwarder_main
#include "tools/source_forwarder.cc"
