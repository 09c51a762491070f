// The lossy proxy of the repository, callable.
#include <cstring>
#include "loopback.hh"
#include <boost/asio.hpp>
#define main proxy_main
#include "tools/lossy_proxy.cc"
