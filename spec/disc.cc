// Discovery: how parties learn each other's addresses.
#include "scl_prelude.h"
#include "scl/net/tcp_utils.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using namespace scl;
typedef std::shared_ptr<Channel> Ch;

// Every other party announces an id and a port.
DiscoveryServer::SendNetworkConfig DCC__Run(DiscoveryServer::CollectIdsAndPorts& self, DiscoveryServer::Ctx& ctx) {
  N n = self.mHostnames.size();
  unsigned me = ctx.me.id;
  spec_assume(me < n);
  spec_assume(n == ctx.network.Size());
  std::vector<Party> ps(n);
  ps[me] = ctx.me;
  for (N i = 0; i < n; ++i) {
    if (i == me) continue;
    unsigned id;
    ctx.network.Party(i)->Recv(id);
    if (id >= n) throw std::logic_error("received invalid party ID");
    int port;
    ctx.network.Party(i)->Recv(port);
    ps[id] = Party{id, self.mHostnames[id], port};
  }
  return DiscoveryServer::SendNetworkConfig(NetworkConfig(me, ps));
}

// Everyone but oneself is sent the whole configuration.
NetworkConfig DSN__Finalize(DiscoveryServer::SendNetworkConfig& self, DiscoveryServer::Ctx& ctx) {
  N n = self.mConfig.mParties.size();
  spec_assume(n == ctx.network.Size());
  for (N i = 0; i < n; ++i) {
    if (i == self.mConfig.mId) continue;
    Ch c = ctx.network.mChannels[i];
    c->Send(n);
    for (N j = 0; j < n; ++j) {
      const Party& p = self.mConfig.mParties[j];
      c->Send(p.id);
      c->Send(p.port);
      N len = p.hostname.size();
      c->Send(len);
      c->Send(reinterpret_cast<const unsigned char*>(p.hostname.c_str()), len);
    }
  }
  return self.mConfig;
}

DiscoveryClient::ReceiveNetworkConfig DCS__Run(DiscoveryClient::SendIdAndPort& self, Ch ctx) {
  ctx->Send(self.mId);
  ctx->Send(self.mPort);
  return DiscoveryClient::ReceiveNetworkConfig(self.mId);
}

inline std::string ReceiveHostname(Ch c) {
  std::string s;
  return s;
}
NetworkConfig DCR__Finalize(DiscoveryClient::ReceiveNetworkConfig& self, Ch ctx) {
  N n;
  ctx->Recv(n);
  std::vector<Party> ps(n);
  for (N i = 0; i < n; ++i) {
    unsigned id;
    ctx->Recv(id);
    int port;
    ctx->Recv(port);
    auto name = ReceiveHostname(ctx);
    spec_assume(id < n);
    ps[id] = Party{id, name, port};
  }
  return NetworkConfig(self.mId, ps);
}

NetworkConfig DCL__Run(DiscoveryClient& self, unsigned id, int port) {
  Ch c = std::make_shared<TcpChannel>(details::ConnectAsClient(self.mHostname, self.mPort));
  DiscoveryClient::SendIdAndPort a(id, port);
  auto b = a.Run(c);
  return b.Finalize(c);
}

NetworkConfig DSV__Run(DiscoveryServer& self, const Party& me) {
  auto s = details::CreateServerSocket(self.mPort, self.mNumberOfParties - 1);
  std::vector<Ch> cs;
  std::vector<std::string> hs;
  for (N i = 0; i < self.mNumberOfParties; ++i) {
    if (i == me.id) {
      cs.emplace_back(nullptr);
      hs.emplace_back(me.hostname);
      continue;
    }
    auto ac = details::AcceptConnection(s);
    hs.emplace_back(details::GetAddress(ac));
    cs.emplace_back(std::make_shared<TcpChannel>(ac.socket));
  }
  DiscoveryServer::CollectIdsAndPorts a(hs);
  DiscoveryServer::Ctx ctx{me, Network{cs}};
  auto b = a.Run(ctx);
  return b.Finalize(ctx);
}
void DSV__ctor__2(DiscoveryServer& self, int port, N n) {
  if (n > 255) throw std::invalid_argument("number_of_parties exceeds max");
  self.mPort = port;
  self.mNumberOfParties = n;
}
void DSV__ctor__1(DiscoveryServer& self, N n) { DSV__ctor__2(self, 9999, n); }
}  // namespace spec
