// A host with no other interface than the loopback one has to be able to name 127.0.0.1: Asio asks for
// AI_ADDRCONFIG, which ignores this interface. To be included before Asio.
#pragma once
#include <netdb.h>
#include <sys/socket.h>
#include <sys/types.h>
inline int loopback_getaddrinfo(const char* host, const char* service, const addrinfo* hints, addrinfo** res)
{
  addrinfo h{};
  if (hints) h = *hints;
  h.ai_flags &= ~AI_ADDRCONFIG;
  return getaddrinfo(host, service, &h, res);
}
#define getaddrinfo loopback_getaddrinfo
