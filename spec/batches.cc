// Batches and layers: capacity, ownership, padding and the packed online steps.
#include "prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using namespace tp;

// ---------------------------------------------------------------- batches
void MultBatch__ctor(MultBatch& self, N k) { self.mBatchSize = k; self.mMultGatesPtrs = {}; }
void InputBatch__ctor(InputBatch& self, N owner, N k) { self.mOwnerID = owner; self.mBatchSize = k; self.mInputGatesPtrs = {}; }
void OutputBatch__ctor(OutputBatch& self, N owner, N k) { self.mOwnerID = owner; self.mBatchSize = k; self.mOutputGatesPtrs = {}; }

void MultBatch__Append(MultBatch& self, std::shared_ptr<MultGate> g) {
  spec_assume(self.mMultGatesPtrs.size() <= self.mBatchSize);
  if (self.mMultGatesPtrs.size() == self.mBatchSize) throw std::invalid_argument("full");
  self.mMultGatesPtrs.push_back(g);
}
void InputBatch__Append(InputBatch& self, std::shared_ptr<InputGate> g) {
  spec_assume(self.mInputGatesPtrs.size() <= self.mBatchSize);
  if (self.mInputGatesPtrs.size() == self.mBatchSize || g->mOwnerID != self.mOwnerID) throw std::invalid_argument("no");
  self.mInputGatesPtrs.push_back(g);
}
void OutputBatch__Append(OutputBatch& self, std::shared_ptr<OutputGate> g) {
  spec_assume(self.mOutputGatesPtrs.size() <= self.mBatchSize);
  if (self.mOutputGatesPtrs.size() == self.mBatchSize || g->mOwnerID != self.mOwnerID) throw std::invalid_argument("no");
  self.mOutputGatesPtrs.push_back(g);
}
bool MultBatch__HasRoom(MultBatch& self) { return self.mBatchSize > self.mMultGatesPtrs.size(); }
bool InputBatch__HasRoom(InputBatch& self) { return self.mBatchSize > self.mInputGatesPtrs.size(); }
bool OutputBatch__HasRoom(OutputBatch& self) { return self.mBatchSize > self.mOutputGatesPtrs.size(); }
std::shared_ptr<MultGate> MultBatch__GetMultGate(MultBatch& self, N i) { return self.mMultGatesPtrs[i]; }
std::shared_ptr<InputGate> InputBatch__GetInputGate(InputBatch& self, N i) { return self.mInputGatesPtrs[i]; }
std::shared_ptr<OutputGate> OutputBatch__GetOutputGate(OutputBatch& self, N i) { return self.mOutputGatesPtrs[i]; }
N InputBatch__GetOwner(InputBatch& self) { return self.mOwnerID; }
N OutputBatch__GetOwner(OutputBatch& self) { return self.mOwnerID; }

void MultBatch__SetPreprocessing(MultBatch& self, FF a, FF b, FF c) {
  self.mPackedShrDeltaC = c;
  self.mPackedShrLambdaB = b;
  self.mPackedShrLambdaA = a;
}
void InputBatch__SetPreprocessing(InputBatch& self, FF a) { self.mPackedShrLambda = a; }
void OutputBatch__SetPreprocessing(OutputBatch& self, FF a) { self.mPackedShrLambda = a; }
FF InputBatch__GetPackedShrLambda(InputBatch& self) { return self.mPackedShrLambda; }
FF OutputBatch__GetPackedShrLambda(OutputBatch& self) { return self.mPackedShrLambda; }

void MultBatch__SetNetwork(MultBatch& self, Net net, N id) {
  self.mID = id;
  self.mNetwork = net;
  self.mParties = net->Size();
}
void InputBatch__SetNetwork(InputBatch& self, Net net, N id) {
  self.mID = id;
  self.mNetwork = net;
  self.mParties = net->Size();
  for (N i = 0; i < self.mInputGatesPtrs.size(); ++i) {
    InputGate& g = *self.mInputGatesPtrs[i];
    g.mID = id;
    g.mNetwork = net;
    g.mParties = net->Size();
  }
}
void OutputBatch__SetNetwork(OutputBatch& self, Net net, N id) {
  self.mID = id;
  self.mNetwork = net;
  self.mParties = net->Size();
  for (N i = 0; i < self.mOutputGatesPtrs.size(); ++i) {
    OutputGate& g = *self.mOutputGatesPtrs[i];
    g.mID = id;
    g.mNetwork = net;
    g.mParties = net->Size();
  }
}
void MultBatch__GetClear(MultBatch& self) {
  for (N i = 0; i < self.mMultGatesPtrs.size(); ++i) self.mMultGatesPtrs[i]->GetClear();
}
void InputBatch__GetClear(InputBatch& self) {
  for (N i = 0; i < self.mInputGatesPtrs.size(); ++i) self.mInputGatesPtrs[i]->GetClear();
}
void OutputBatch__GetClear(OutputBatch& self) {
  for (N i = 0; i < self.mOutputGatesPtrs.size(); ++i) self.mOutputGatesPtrs[i]->GetClear();
}

// dummy preprocessing: only a closed (full) batch can be prepared
void MultBatch___DummyPrep__3(MultBatch& self, FF a, FF b, FF c) {
  if (self.mMultGatesPtrs.size() != self.mBatchSize) throw std::invalid_argument("size");
  self.mPackedShrLambdaA = a;
  self.mPackedShrLambdaB = b;
  self.mPackedShrDeltaC = a * b - c;
}
void MultBatch___DummyPrep__0(MultBatch& self) {
  if (self.mMultGatesPtrs.size() != self.mBatchSize) throw std::invalid_argument("size");
  self.mPackedShrLambdaA = FF(0);
  self.mPackedShrLambdaB = FF(0);
  self.mPackedShrDeltaC = FF(0);
}
void InputBatch___DummyPrep__1(InputBatch& self, FF l) {
  if (self.mInputGatesPtrs.size() != self.mBatchSize) throw std::invalid_argument("size");
  self.mPackedShrLambda = l;
  for (N i = 0; i < self.mInputGatesPtrs.size(); ++i) {
    InputGate& g = *self.mInputGatesPtrs[i];
    if (g.mOwnerID == g.mID) g.mLambda = l;
  }
}
void OutputBatch___DummyPrep__1(OutputBatch& self, FF l) {
  if (self.mOutputGatesPtrs.size() != self.mBatchSize) throw std::invalid_argument("size");
  self.mPackedShrLambda = l;
  for (N i = 0; i < self.mOutputGatesPtrs.size(); ++i) {
    OutputGate& g = *self.mOutputGatesPtrs[i];
    if (g.mOwnerID == g.mID) g.mLambda = l;
  }
}
// the party's own share (evaluation point id+1) of the degree-(k-1) sharing
FF own_share(std::vector<FF> secrets, N k, N parties, N id, scl::PRG& prg) {
  auto poly = EvPolyFromSecretsAndDegree(Vec(secrets), k - 1, prg);
  auto shares = SharesFromEvPoly(poly, parties);
  return shares[id];
}
void InputBatch__PrepFromDummyLambdas(InputBatch& self) {
  std::vector<FF> l;
  for (N i = 0; i < self.mBatchSize; ++i) l.push_back(self.mInputGatesPtrs[i]->GetDummyLambda());
  self.mPackedShrLambda = own_share(l, self.mBatchSize, self.mParties, self.mID, self.mPRG);
}
void OutputBatch__PrepFromDummyLambdas(OutputBatch& self) {
  std::vector<FF> l;
  for (N i = 0; i < self.mBatchSize; ++i) l.push_back(self.mOutputGatesPtrs[i]->GetDummyLambda());
  self.mPackedShrLambda = own_share(l, self.mBatchSize, self.mParties, self.mID, self.mPRG);
}
void MultBatch__PrepFromDummyLambdas(MultBatch& self) {
  std::vector<FF> a, b, d;
  for (N i = 0; i < self.mBatchSize; ++i) {
    FF x = self.mMultGatesPtrs[i]->mLeft->GetDummyLambda();
    FF y = self.mMultGatesPtrs[i]->mRight->GetDummyLambda();
    FF z = self.mMultGatesPtrs[i]->GetDummyLambda();
    a.push_back(x);
    b.push_back(y);
    d.push_back(x * y - z);
  }
  self.mPackedShrLambdaA = EvPolyFromSecretsAndDegree(Vec(a), self.mBatchSize - 1, self.mPRG).Evaluate(FF(self.mID + 1));
  self.mPackedShrLambdaB = EvPolyFromSecretsAndDegree(Vec(b), self.mBatchSize - 1, self.mPRG).Evaluate(FF(self.mID + 1));
  self.mPackedShrDeltaC = EvPolyFromSecretsAndDegree(Vec(d), self.mBatchSize - 1, self.mPRG).Evaluate(FF(self.mID + 1));
}

// ---------------------------------------------------------------- online multiplication
// P1 packs the masked left (right) values and gives every party one share of each
void MultBatch__P1Sends(MultBatch& self) {
  if (self.mID != 0) return;
  std::vector<FF> a, b;
  for (N i = 0; i < self.mMultGatesPtrs.size(); ++i) {
    a.push_back(self.mMultGatesPtrs[i]->mLeft->GetMu());
    b.push_back(self.mMultGatesPtrs[i]->mRight->GetMu());
  }
  auto pa = EvPolyFromSecretsAndDegree(Vec(a), self.mBatchSize - 1, self.mPRG);
  auto pb = EvPolyFromSecretsAndDegree(Vec(b), self.mBatchSize - 1, self.mPRG);
  auto sa = SharesFromEvPoly(pa, self.mParties);
  auto sb = SharesFromEvPoly(pb, self.mParties);
  for (N j = 0; j < self.mParties; ++j) {
    self.mNetwork->Party(j)->Send(sa[j]);
    self.mNetwork->Party(j)->Send(sb[j]);
  }
}
void MultBatch__PartiesReceive(MultBatch& self) {
  FF a, b;
  self.mNetwork->Party(0)->Recv(a);
  self.mNetwork->Party(0)->Recv(b);
  self.mPackedShrMuB = b;
  self.mPackedShrMuA = a;
}
// (mu_A + lambda_A)(mu_B + lambda_B) - lambda_C, with delta = lambda_A lambda_B - lambda_C
void MultBatch__PartiesSend(MultBatch& self) {
  FF x = self.mPackedShrMuA + self.mPackedShrLambdaA;
  FF y = self.mPackedShrMuB + self.mPackedShrLambdaB;
  FF share = x * y - self.mPackedShrLambdaA * self.mPackedShrLambdaB + self.mPackedShrDeltaC;
  self.mNetwork->Party(0)->Send(share);
}
void MultBatch__P1Receives(MultBatch& self) {
  if (self.mID != 0) return;
  std::vector<FF> shares;
  for (N j = 0; j < self.mParties; ++j) {
    FF s;
    self.mNetwork->Party(j)->Recv(s);
    shares.push_back(s);
  }
  auto mu = SecretsFromSharesAndLength(Vec(shares), self.mBatchSize);
  for (N i = 0; i < self.mBatchSize; ++i) {
    MultGate& g = *self.mMultGatesPtrs[i];
    g.mLearned = true;
    g.mMu = mu[i];
  }
}

// ---------------------------------------------------------------- layers
void MultLayer__ctor(MultLayer& self, N k) {
  self.mBatchSize = k;
  self.mBatches = {std::make_shared<MultBatch>(k)};
}
void InputLayer__ctor(InputLayer& self, N owner, N k) {
  self.mOwnerID = owner;
  self.mBatchSize = k;
  self.mBatches = {std::make_shared<InputBatch>(owner, k)};
}
void OutputLayer__ctor(OutputLayer& self, N owner, N k) {
  self.mOwnerID = owner;
  self.mBatchSize = k;
  self.mBatches = {std::make_shared<OutputBatch>(owner, k)};
}
void MultLayer__Append(MultLayer& self, std::shared_ptr<MultGate> g) {
  spec_assume(self.mBatches.size() >= 1);
  auto last = self.mBatches[self.mBatches.size() - 1];
  if (last->mMultGatesPtrs.size() >= last->mBatchSize) {
    last = std::make_shared<MultBatch>(self.mBatchSize);
    self.mBatches.push_back(last);
  }
  last->Append(g);
}
void InputLayer__Append(InputLayer& self, std::shared_ptr<InputGate> g) {
  spec_assume(self.mBatches.size() >= 1);
  auto last = self.mBatches[self.mBatches.size() - 1];
  if (last->mInputGatesPtrs.size() >= last->mBatchSize) {
    last = std::make_shared<InputBatch>(self.mOwnerID, self.mBatchSize);
    self.mBatches.push_back(last);
  }
  last->Append(g);
}
void OutputLayer__Append(OutputLayer& self, std::shared_ptr<OutputGate> g) {
  spec_assume(self.mBatches.size() >= 1);
  auto last = self.mBatches[self.mBatches.size() - 1];
  if (last->mOutputGatesPtrs.size() >= last->mBatchSize) {
    last = std::make_shared<OutputBatch>(self.mOwnerID, self.mBatchSize);
    self.mBatches.push_back(last);
  }
  last->Append(g);
}
// closing fills the last batch with one padding gate of the layer's own kind
void MultLayer__Close(MultLayer& self) {
  spec_assume(self.mBatches.size() >= 1);
  auto pad = std::make_shared<PadMultGate>();
  pad->mLeft = pad;
  pad->mRight = pad;
  auto last = self.mBatches[self.mBatches.size() - 1];
  N have = last->mMultGatesPtrs.size();
  for (N i = have; i < last->mBatchSize; ++i) last->mMultGatesPtrs.push_back(pad);
}
void InputLayer__Close(InputLayer& self) {
  spec_assume(self.mBatches.size() >= 1);
  auto pad = std::make_shared<PadInputGate>(self.mOwnerID);
  auto last = self.mBatches[self.mBatches.size() - 1];
  spec_assume(last->mOwnerID == self.mOwnerID);
  N have = last->mInputGatesPtrs.size();
  for (N i = have; i < last->mBatchSize; ++i) last->Append(pad);
}
void OutputLayer__Close(OutputLayer& self) {
  spec_assume(self.mBatches.size() >= 1);
  auto pad = std::make_shared<PadOutputGate>(self.mOwnerID);
  pad->mLeft = pad;
  auto last = self.mBatches[self.mBatches.size() - 1];
  spec_assume(last->mOwnerID == self.mOwnerID);
  N have = last->mOutputGatesPtrs.size();
  for (N i = have; i < last->mBatchSize; ++i) last->Append(pad);
}
std::shared_ptr<MultBatch> MultLayer__GetMultBatch(MultLayer& self, N i) { return self.mBatches[i]; }
std::shared_ptr<InputBatch> InputLayer__GetInputBatch(InputLayer& self, N i) { return self.mBatches[i]; }
std::shared_ptr<OutputBatch> OutputLayer__GetOutputBatch(OutputLayer& self, N i) { return self.mBatches[i]; }
N MultLayer__GetSize(MultLayer& self) { return self.mBatches.size(); }
N InputLayer__GetSize(InputLayer& self) { return self.mBatches.size(); }
N OutputLayer__GetSize(OutputLayer& self) { return self.mBatches.size(); }

#define LAYER_EACH(C, M) \
  void C##Layer__##M(C##Layer& self) { for (N i = 0; i < self.mBatches.size(); ++i) self.mBatches[i]->M(); }
LAYER_EACH(Mult, P1Sends)
LAYER_EACH(Mult, PartiesReceive)
LAYER_EACH(Mult, PartiesSend)
LAYER_EACH(Mult, P1Receives)
LAYER_EACH(Mult, PrepFromDummyLambdas)
LAYER_EACH(Input, PrepFromDummyLambdas)
LAYER_EACH(Output, PrepFromDummyLambdas)
#define LAYER_CLEAR(C) \
  void C##Layer__ClearEvaluation(C##Layer& self) { for (N i = 0; i < self.mBatches.size(); ++i) self.mBatches[i]->GetClear(); }
LAYER_CLEAR(Mult)
LAYER_CLEAR(Input)
LAYER_CLEAR(Output)
#define LAYER_NET(C) \
  void C##Layer__SetNetwork(C##Layer& self, Net net, N id) { \
    self.mNetwork = net; self.mID = id; self.mParties = net->Size(); \
    for (N i = 0; i < self.mBatches.size(); ++i) self.mBatches[i]->SetNetwork(net, id); }
LAYER_NET(Mult)
LAYER_NET(Input)
LAYER_NET(Output)
void MultLayer___DummyPrep__3(MultLayer& self, FF a, FF b, FF c) {
  for (N i = 0; i < self.mBatches.size(); ++i) self.mBatches[i]->_DummyPrep(a, b, c);
}
void InputLayer___DummyPrep__1(InputLayer& self, FF a) {
  for (N i = 0; i < self.mBatches.size(); ++i) self.mBatches[i]->_DummyPrep(a);
}
void OutputLayer___DummyPrep__1(OutputLayer& self, FF a) {
  for (N i = 0; i < self.mBatches.size(); ++i) self.mBatches[i]->_DummyPrep(a);
}

void MultBatch__RunProtocol(MultBatch& self) {
  self.P1Sends();
  self.PartiesReceive();
  self.PartiesSend();
  self.P1Receives();
}
void InputBatch___DummyPrep__0(InputBatch& self) { self._DummyPrep(FF(0)); }
void OutputBatch___DummyPrep__0(OutputBatch& self) { self._DummyPrep(FF(0)); }
}  // namespace spec
