// How networks are wired.
#include "scl_prelude.h"
#include "scl/net/tcp_utils.h"
#include "scl/net/threaded_sender.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using namespace scl;
typedef std::shared_ptr<Channel> Ch;
typedef details::SharedDeque<std::vector<unsigned char>> Buf;
inline Ch self_() {
  auto b = std::make_shared<Buf>();
  return std::make_shared<InMemoryChannel>(b, b);
}
std::vector<Network> NET__CreateFullInMemory(N n) {
  std::vector<std::vector<Ch>> c(n);
  for (N i = 0; i < n; ++i) c[i] = std::vector<Ch>(n);
  std::vector<Network> r;
  for (N i = 0; i < n; ++i) {
    c[i][i] = self_();
    for (N j = i + 1; j < n; ++j) {
      auto a = std::make_shared<Buf>();
      auto b = std::make_shared<Buf>();
      c[i][j] = std::make_shared<InMemoryChannel>(a, b);
      c[j][i] = std::make_shared<InMemoryChannel>(b, a);
    }
    r.emplace_back(Network{c[i]});
  }
  return r;
}
std::pair<Network, std::vector<Ch>> NET__CreateMock(unsigned id, N n) {
  std::vector<Ch> mine(n), theirs(n);
  for (N i = 0; i < n; ++i) {
    if (i == id) {
      mine[i] = self_();
      theirs[i] = nullptr;
    } else {
      auto a = std::make_shared<Buf>();
      auto b = std::make_shared<Buf>();
      mine[i] = std::make_shared<InMemoryChannel>(a, b);
      theirs[i] = std::make_shared<InMemoryChannel>(b, a);
    }
  }
  return std::pair<Network, std::vector<Ch>>{Network{mine}, theirs};
}

// Party i waits for one connection of every party with a greater id and
// connects to every party with a smaller one, announcing its own id.
inline void accept_(std::vector<Ch>& c, const NetworkConfig config) {
  auto me = config.Id();
  N n = config.NetworkSize() - me - 1;
  if (n == 0) return;
  int s = details::CreateServerSocket(config.GetParty(me).port, n);
  N got = 0;
  while (got < n) {
    auto ac = details::AcceptConnection(s);
    Ch ch = std::make_shared<TcpChannel>(ac.socket);
    unsigned id;
    ch->Recv(id);
    bool awaited = false;
    for (N j = me + 1; j < c.size(); ++j)
      if (j == id && !c[j]) {
        c[j] = ch;
        awaited = true;
      }
    if (awaited)
      got++;
    else
      ch->Close();
  }
  details::CloseSocket(s);
}
template <class C>
Network create_(const NetworkConfig& config) {
  spec_assume(config.Id() < config.NetworkSize());
  std::vector<Ch> c(config.NetworkSize());
  c[config.Id()] = self_();
  std::thread server(accept_, std::ref(c), config);
  for (N i = 0; i < config.Id(); ++i) {
    const auto party = config.GetParty(i);
    Ch ch = std::make_shared<C>(details::ConnectAsClient(party.hostname, party.port));
    ch->Send((unsigned)config.Id());
    c[i] = ch;
  }
  server.join();
  return Network{c};
}
Network NET__Create(const NetworkConfig& config) { return create_<TcpChannel>(config); }
Network NET__CreateThreadedSenders(const NetworkConfig& config) { return create_<ThreadedSenderChannel>(config); }
Channel* NET__Party(Network& self, unsigned id) { return self.mChannels[id].get(); }
N NET__Size(const Network& self) { return self.mChannels.size(); }

void NET__Close(Network& self) {
  for (N i = 0; i < self.mChannels.size(); ++i) self.mChannels[i]->Close();
}
void NET__ctor__1(Network& self, const std::vector<Ch>& channels) { self.mChannels = channels; }

// The queue between threads. Waiting lets other threads change the queue.
typedef std::vector<unsigned char> Msg;
inline void nonempty_(Buf& self, std::unique_lock<std::mutex>& l) {
  while (self.mDeck.empty()) self.mCond.wait(l);
}
void SD__PopFront(Buf& self) {
  std::unique_lock<std::mutex> l(self.mMutex);
  nonempty_(self, l);
  self.mDeck.pop_front();
}
Msg SD__Pop(Buf& self) {
  std::unique_lock<std::mutex> l(self.mMutex);
  nonempty_(self, l);
  Msg m = self.mDeck.front();
  self.mDeck.pop_front();
  return m;
}
Msg& SD__Peek(Buf& self) {
  std::unique_lock<std::mutex> l(self.mMutex);
  nonempty_(self, l);
  return self.mDeck.front();
}
void SD__PushBack__c(Buf& self, const Msg& m) {
  std::unique_lock<std::mutex> l(self.mMutex);
  self.mDeck.push_back(m);
  self.mCond.notify_one();
}
void SD__PushBack__m(Buf& self, Msg&& m) {
  std::unique_lock<std::mutex> l(self.mMutex);
  self.mDeck.push_back(m);
  self.mCond.notify_one();
}
N SD__Size(Buf& self) {
  std::unique_lock<std::mutex> l(self.mMutex);
  return self.mDeck.size();
}

// Configurations
inline void valid_(unsigned id, const std::vector<scl::Party>& ps) {
  N n = ps.size();
  bool bad = id >= n;
  for (N i = 0; i < n; ++i)
    if (ps[i].id >= n) bad = true;
  for (N i = 0; i < n; ++i)
    for (N j = 0; j < i; ++j)
      if (ps[i].id == ps[j].id) bad = true;
  if (bad) throw std::invalid_argument("configuration");
}
void CFG__ctor__2(NetworkConfig& self, unsigned id, std::vector<scl::Party> parties) {
  valid_(id, parties);
  self.mId = id;
  self.mParties = parties;
}
void CFG__Validate(NetworkConfig& self) { valid_(self.mId, self.mParties); }
NetworkConfig CFG__Localhost__3(unsigned id, N n, int base) {
  if (id >= n) throw std::invalid_argument("id");
  std::vector<scl::Party> ps;
  for (N i = 0; i < n; ++i) ps.push_back(scl::Party{(unsigned)i, "127.0.0.1", base + (int)i});
  return NetworkConfig(id, ps);
}
NetworkConfig CFG__Localhost__2(unsigned id, N n) { return CFG__Localhost__3(id, n, 9900); }
unsigned CFG__Id(const NetworkConfig& self) { return self.mId; }
N CFG__NetworkSize(const NetworkConfig& self) { return self.mParties.size(); }
std::vector<scl::Party> CFG__Parties(const NetworkConfig& self) { return self.mParties; }
scl::Party CFG__GetParty(const NetworkConfig& self, unsigned id) {
  N at = self.mParties.size();
  for (N i = self.mParties.size(); i > 0; --i)
    if (self.mParties[i - 1].id == id) at = i - 1;
  if (at == self.mParties.size()) throw std::invalid_argument("no such party");
  return self.mParties[at];
}
}  // namespace spec
