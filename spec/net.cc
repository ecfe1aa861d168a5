// Channels as byte streams.
#include "bits_prelude.h"
#include "scl/net/tcp_utils.h"
#include "scl/net/threaded_sender.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using scl::InMemoryChannel;
using scl::TcpChannel;
typedef std::vector<u8> Bytes;

void IMC__Send(InMemoryChannel& self, const u8* src, N n) {
  spec_assume(n > 0);  // no bytes, nothing to deliver
  Bytes b(n);
  for (N i = 0; i < n; ++i) b[i] = src[i];
  self.mOut->PushBack(b);
}
void IMC__Recv(InMemoryChannel& self, u8* dst, N n) {
  for (N i = 0; i < n; ++i) {
    while (self.mOverflow.empty()) self.mOverflow = self.mIn->Pop();
    dst[i] = self.mOverflow[0];
    self.mOverflow.erase(self.mOverflow.begin());
  }
}
void TCP__Send(TcpChannel& self, const u8* src, N n) {
  N done = 0;
  while (done < n) {
    int r = scl::details::WriteToSocket(self.mSocket, src + done, n - done);
    if (r < 0) throw std::system_error(1, std::generic_category(), "write");
    done += r;
  }
}
void TCP__Recv(TcpChannel& self, u8* dst, N n) {
  N done = 0;
  while (done < n) {
    int r = scl::details::ReadFromSocket(self.mSocket, dst + done, n - done);
    if (r < 0) throw std::system_error(1, std::generic_category(), "read");
    if (r == 0) throw std::runtime_error("eof");
    done += r;
  }
}
void TS__Send(scl::ThreadedSenderChannel& self, const u8* src, N n) {
  spec_assume(n > 0);  // no bytes, nothing to deliver
  Bytes b(n);
  for (N i = 0; i < n; ++i) b[i] = src[i];
  self.mSendBuffer.PushBack(b);
}
void TS__Recv(scl::ThreadedSenderChannel& self, u8* dst, N n) { TCP__Recv(self.mChannel, dst, n); }
bool TCP__Alive(const TcpChannel& self) { return self.mAlive; }
void TCP__ctor__1(TcpChannel& self, int socket) {
  self.mAlive = true;
  self.mSocket = socket;
}
void TCP__Close(TcpChannel& self) {
  if (self.mAlive) {
    if (scl::details::CloseSocket(self.mSocket) < 0) throw std::system_error(1, std::generic_category(), "close");
    self.mAlive = false;
  }
}
}  // namespace spec
