// Circuit: construction, phase traversal, dummy preprocessing, clear evaluation.
#include "prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using namespace tp;

// ---------------------------------------------------------------- construction
void Circuit__Init(Circuit& self, N clients, N k) {
  for (N c = 0; c < clients; ++c) {
    self.mInputLayers.push_back(InputLayer(c, k));
    self.mOutputLayers.push_back(OutputLayer(c, k));
  }
  self.mFlatInputGates.resize(clients);
  self.mFlatOutputGates.resize(clients);
  self.mMultLayers.push_back(MultLayer(self.mBatchSize));
  self.mFlatMultLayers.push_back(std::vector<std::shared_ptr<MultGate>>());
  self.mIsNetworkSet = false;
  self.mIsClosed = false;
}
std::shared_ptr<InputGate> Circuit__Input(Circuit& self, N owner) {
  auto g = std::make_shared<InputGate>(owner);
  self.mInputGates.push_back(g);
  self.mFlatInputGates[owner].push_back(g);
  self.mInputLayers[owner].Append(g);
  return g;
}
std::shared_ptr<OutputGate> Circuit__Output(Circuit& self, N owner, G from) {
  auto g = std::make_shared<OutputGate>(owner, from);
  self.mOutputGates.push_back(g);
  self.mFlatOutputGates[owner].push_back(g);
  self.mOutputLayers[owner].Append(g);
  return g;
}
std::shared_ptr<AddGate> Circuit__Add(Circuit& self, G l, G r) {
  auto g = std::make_shared<AddGate>(l, r);
  self.mAddGates.push_back(g);
  return g;
}
std::shared_ptr<MultGate> Circuit__Mult(Circuit& self, G l, G r) {
  auto g = std::make_shared<MultGate>(l, r);
  self.mSize = self.mSize + 1;
  self.mFlatMultLayers[self.mFlatMultLayers.size() - 1].push_back(g);
  self.mMultLayers[self.mMultLayers.size() - 1].Append(g);
  return g;
}
void Circuit__NewLayer(Circuit& self) {
  N w = self.mFlatMultLayers[self.mFlatMultLayers.size() - 1].size();
  self.mWidth = self.mWidth < w ? w : self.mWidth;
  self.mMultLayers[self.mMultLayers.size() - 1].Close();
  self.mMultLayers.push_back(MultLayer(self.mBatchSize));
  self.mFlatMultLayers.push_back(std::vector<std::shared_ptr<MultGate>>());
}
void Circuit__LastLayer(Circuit& self) {
  N w = self.mFlatMultLayers[self.mFlatMultLayers.size() - 1].size();
  self.mWidth = self.mWidth < w ? w : self.mWidth;
  self.mMultLayers[self.mMultLayers.size() - 1].Close();
  self.mFlatMultLayers.push_back(std::vector<std::shared_ptr<MultGate>>());
}
void Circuit__CloseInputs(Circuit& self) {
  for (N c = 0; c < self.mInputLayers.size(); ++c) {
    InputLayer l = self.mInputLayers[c];
    l.Close();
  }
}
void Circuit__CloseOutputs(Circuit& self) {
  for (N c = 0; c < self.mOutputLayers.size(); ++c) {
    OutputLayer l = self.mOutputLayers[c];
    l.Close();
  }
  self.mIsClosed = true;
}
void Circuit__SetNetwork(Circuit& self, Net net, N id) {
  if (!self.mIsClosed) throw std::invalid_argument("not closed");
  self.mID = id;
  self.mParties = net->Size();
  self.mNetwork = net;
  for (N c = 0; c < self.mInputLayers.size(); ++c) { InputLayer l = self.mInputLayers[c]; l.SetNetwork(net, id); }
  for (N c = 0; c < self.mMultLayers.size(); ++c) { MultLayer l = self.mMultLayers[c]; l.SetNetwork(net, id); }
  for (N c = 0; c < self.mOutputLayers.size(); ++c) { OutputLayer l = self.mOutputLayers[c]; l.SetNetwork(net, id); }
  self.mIsNetworkSet = true;
}
std::shared_ptr<InputGate> Circuit__GetInputGate__2(Circuit& self, N owner, N i) { return self.mFlatInputGates[owner][i]; }
std::shared_ptr<InputGate> Circuit__GetInputGate__1(Circuit& self, N i) { return self.mInputGates[i]; }
std::shared_ptr<OutputGate> Circuit__GetOutputGate__2(Circuit& self, N owner, N i) { return self.mFlatOutputGates[owner][i]; }
std::shared_ptr<OutputGate> Circuit__GetOutputGate__1(Circuit& self, N i) { return self.mOutputGates[i]; }
std::shared_ptr<MultGate> Circuit__GetMultGate(Circuit& self, N l, N i) { return self.mFlatMultLayers[l][i]; }
N Circuit__GetDepth(Circuit& self) { return self.mMultLayers.size(); }
N Circuit__GetNInputs(Circuit& self) { return self.mInputGates.size(); }
N Circuit__GetNOutputs(Circuit& self) { return self.mOutputGates.size(); }
N Circuit__GetWidth(Circuit& self) { return self.mWidth; }
N Circuit__GetSize(Circuit& self) { return self.mSize; }
N Circuit__GetNInputBatches(Circuit& self) {
  N s = 0;
  for (N c = 0; c < self.mInputLayers.size(); ++c) s += self.mInputLayers[c].mBatches.size();
  return s;
}
N Circuit__GetNOutputBatches(Circuit& self) {
  N s = 0;
  for (N c = 0; c < self.mOutputLayers.size(); ++c) s += self.mOutputLayers[c].mBatches.size();
  return s;
}
N Circuit__GetNMultBatches(Circuit& self) {
  N s = 0;
  for (N c = 0; c < self.mMultLayers.size(); ++c) s += self.mMultLayers[c].mBatches.size();
  return s;
}
N CircuitConfig__ComputeNumberOfInputs(CircuitConfig& self) {
  N s = 0;
  for (N i = 0; i < self.inp_gates.size(); ++i) s += self.inp_gates[i];
  return s;
}
N CircuitConfig__ComputeNumberOfOutputs(CircuitConfig& self) {
  N s = 0;
  for (N i = 0; i < self.out_gates.size(); ++i) s += self.out_gates[i];
  return s;
}
// synthetic circuit: every layer pairs up neighbours (x, y) into x(x+y), y(x+y)
Circuit Circuit__FromConfig(CircuitConfig config) {
  N n_in = 0;
  for (N i = 0; i < config.inp_gates.size(); ++i) n_in += config.inp_gates[i];
  if (config.inp_gates.size() != config.n_parties || config.out_gates.size() != config.n_parties ||
      config.width % n_in != 0 || n_in % 2 != 0)
    throw std::invalid_argument("config");
  Circuit c(config.n_parties, config.batch_size);
  for (N i = 0; i < config.n_parties; i++)
    for (N j = 0; j < config.inp_gates[i]; j++) c.Input(i);
  c.CloseInputs();
  for (N i = 0; i < config.width / 2; i++) {
    auto x = c.GetInputGate((2 * i) % n_in);
    auto y = c.GetInputGate((2 * i + 1) % n_in);
    auto s = c.Add(x, y);
    c.Mult(x, s);
    c.Mult(y, s);
  }
  for (N d = 1; d < config.depth; d++) {
    c.NewLayer();
    for (N i = 0; i < config.width / 2; i++) {
      auto x = c.GetMultGate(d - 1, 2 * i);
      auto y = c.GetMultGate(d - 1, 2 * i + 1);
      auto s = c.Add(x, y);
      c.Mult(x, s);
      c.Mult(y, s);
    }
  }
  c.LastLayer();
  N ctr = 0;
  for (N i = 0; i < config.n_parties; i++)
    for (N j = 0; j < config.out_gates[i]; j++) {
      auto x = c.GetMultGate(config.depth - 1, ctr % config.width);
      c.Output(i, x);
      ctr++;
    }
  c.CloseOutputs();
  return c;
}

// ---------------------------------------------------------------- cleartext
void Circuit__SetClearInputs(Circuit& self, std::vector<std::vector<FF>> in) {
  if (in.size() != self.mClients) throw std::invalid_argument("clients");
  for (N c = 0; c < self.mClients; ++c) {
    if (in[c].size() != self.mFlatInputGates[c].size()) throw std::invalid_argument("inputs");
    for (N j = 0; j < self.mFlatInputGates[c].size(); ++j) self.mFlatInputGates[c][j]->ClearInput(in[c][j]);
  }
}
void Circuit__SetClearInputsFlat(Circuit& self, std::vector<FF> in) {
  N k = 0;
  for (N c = 0; c < self.mClients; ++c)
    for (N j = 0; j < self.mFlatInputGates[c].size(); ++j) self.mFlatInputGates[c][j]->ClearInput(in[k++]);
}
std::vector<std::vector<FF>> Circuit__GetClearOutputs(Circuit& self) {
  std::vector<std::vector<FF>> out;
  for (N c = 0; c < self.mClients; ++c) {
    std::vector<FF> o;
    for (N j = 0; j < self.mFlatOutputGates[c].size(); ++j) o.push_back(self.mFlatOutputGates[c][j]->GetClear());
    out.push_back(o);
  }
  return out;
}
std::vector<FF> Circuit__GetClearOutputsFlat(Circuit& self) {
  std::vector<FF> out;
  for (N j = 0; j < self.mOutputGates.size(); ++j) out.push_back(self.mOutputGates[j]->GetClear());
  return out;
}

// ---------------------------------------------------------------- preprocessing over the circuit
void Circuit__GenCorrelator(Circuit& self) {
  if (!self.mIsNetworkSet) throw std::invalid_argument("network");
  N in = 0, out = 0, mu = 0;
  for (N c = 0; c < self.mInputLayers.size(); ++c) in += self.mInputLayers[c].mBatches.size();
  for (N c = 0; c < self.mOutputLayers.size(); ++c) out += self.mOutputLayers[c].mBatches.size();
  for (N c = 0; c < self.mMultLayers.size(); ++c) mu += self.mMultLayers[c].mBatches.size();
  self.mCorrelator = Correlator(self.mInputGates.size() + self.mSize, mu, in + out, self.mBatchSize);
  self.mCorrelator.SetNetwork(self.mNetwork, self.mID);
  self.mCorrelator.PrecomputeEi();
}
void Circuit__SetThreshold(Circuit& self, N t) {
  self.mCorrelator.SetThreshold(t);
  self.mCorrelator.PrecomputeVandermonde();
}
void Circuit__MapCorrToCircuit(Circuit& self) {
  Correlator& c = self.mCorrelator;
  for (N i = 0; i < self.mInputGates.size(); ++i) c.PopulateIndvShrs(self.mInputGates[i]);
  for (N l = 0; l < self.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mFlatMultLayers[l].size(); ++i) c.PopulateIndvShrs(self.mFlatMultLayers[l][i]);
  for (N i = 0; i < self.mAddGates.size(); ++i) c.PopulateIndvShrs(self.mAddGates[i]);
  for (N i = 0; i < self.mOutputGates.size(); ++i) c.PopulateIndvShrs(self.mOutputGates[i]);
  for (N l = 0; l < self.mInputLayers.size(); ++l)
    for (N i = 0; i < self.mInputLayers[l].mBatches.size(); ++i) c.PopulateInputBatches(self.mInputLayers[l].mBatches[i]);
  for (N l = 0; l < self.mOutputLayers.size(); ++l)
    for (N i = 0; i < self.mOutputLayers[l].mBatches.size(); ++i) c.PopulateOutputBatches(self.mOutputLayers[l].mBatches[i]);
  for (N l = 0; l < self.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mMultLayers[l].mBatches.size(); ++i) c.PopulateMultBatches(self.mMultLayers[l].mBatches[i]);
}
#define FORWARD(M) void Circuit__##M(Circuit& self) { self.mCorrelator.M(); }
FORWARD(GenIndShrsPartiesSend)
FORWARD(GenIndShrsPartiesReceive)
FORWARD(GenUnpackedShrPartiesSend)
FORWARD(GenUnpackedShrPartiesReceive)
FORWARD(GenZeroPartiesSend)
FORWARD(GenZeroPartiesReceive)
FORWARD(GenZeroForProdPartiesSend)
FORWARD(GenZeroForProdPartiesReceive)
FORWARD(GenProdPartiesSendP1)
FORWARD(GenProdP1ReceivesAndSends)
FORWARD(GenProdPartiesReceive)
void Circuit__FIPrepSend(Circuit& self) {
  self.mCorrelator.GenIndShrsPartiesSend();
  self.mCorrelator.GenUnpackedShrPartiesSend();
  self.mCorrelator.GenZeroPartiesSend();
  self.mCorrelator.GenZeroForProdPartiesSend();
}
void Circuit__FIPrepRecv(Circuit& self) {
  self.mCorrelator.GenIndShrsPartiesReceive();
  self.mCorrelator.GenUnpackedShrPartiesReceive();
  self.mCorrelator.GenZeroPartiesReceive();
  self.mCorrelator.GenZeroForProdPartiesReceive();
}
void Circuit__PrepMultPartiesSendP1(Circuit& self) {
  for (N l = 0; l < self.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mMultLayers[l].mBatches.size(); ++i) self.mCorrelator.PrepMultPartiesSendP1(self.mMultLayers[l].mBatches[i]);
}
void Circuit__PrepMultP1ReceivesAndSends(Circuit& self) {
  for (N l = 0; l < self.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mMultLayers[l].mBatches.size(); ++i) self.mCorrelator.PrepMultP1ReceivesAndSends();
}
void Circuit__PrepMultPartiesReceive(Circuit& self) {
  for (N l = 0; l < self.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mMultLayers[l].mBatches.size(); ++i) self.mCorrelator.PrepMultPartiesReceive(self.mMultLayers[l].mBatches[i]);
}
void Circuit__PrepIOPartiesSendOwner(Circuit& self) {
  for (N l = 0; l < self.mInputLayers.size(); ++l)
    for (N i = 0; i < self.mInputLayers[l].mBatches.size(); ++i) self.mCorrelator.PrepInputPartiesSendOwner(self.mInputLayers[l].mBatches[i]);
  for (N l = 0; l < self.mOutputLayers.size(); ++l)
    for (N i = 0; i < self.mOutputLayers[l].mBatches.size(); ++i) self.mCorrelator.PrepOutputPartiesSendOwner(self.mOutputLayers[l].mBatches[i]);
}
void Circuit__PrepIOOwnerReceives(Circuit& self) {
  for (N l = 0; l < self.mInputLayers.size(); ++l)
    for (N i = 0; i < self.mInputLayers[l].mBatches.size(); ++i) self.mCorrelator.PrepInputOwnerReceives(self.mInputLayers[l].mBatches[i]);
  for (N l = 0; l < self.mOutputLayers.size(); ++l)
    for (N i = 0; i < self.mOutputLayers[l].mBatches.size(); ++i) self.mCorrelator.PrepOutputOwnerReceives(self.mOutputLayers[l].mBatches[i]);
}
void Circuit__SetDummyLambdas(Circuit& self, FF v) {
  for (N l = 0; l < self.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mFlatMultLayers[l].size(); ++i) self.mFlatMultLayers[l][i]->SetDummyLambda(v);
  for (N i = 0; i < self.mInputGates.size(); ++i) self.mInputGates[i]->SetLambda(v);
}
void Circuit__PopulateDummyLambdas(Circuit& self) {
  for (N i = 0; i < self.mAddGates.size(); ++i) self.mAddGates[i]->GetDummyLambda();
  for (N i = 0; i < self.mOutputGates.size(); ++i) self.mOutputGates[i]->GetDummyLambda();
}
void Circuit__PrepFromDummyLambdas(Circuit& self) {
  for (N c = 0; c < self.mInputLayers.size(); ++c) { InputLayer l = self.mInputLayers[c]; l.PrepFromDummyLambdas(); }
  for (N c = 0; c < self.mOutputLayers.size(); ++c) { OutputLayer l = self.mOutputLayers[c]; l.PrepFromDummyLambdas(); }
  for (N c = 0; c < self.mMultLayers.size(); ++c) { MultLayer l = self.mMultLayers[c]; l.PrepFromDummyLambdas(); }
}
void Circuit___DummyPrep__0(Circuit& self) {
  for (N c = 0; c < self.mInputLayers.size(); ++c) { InputLayer l = self.mInputLayers[c]; l._DummyPrep(); }
  for (N c = 0; c < self.mMultLayers.size(); ++c) { MultLayer l = self.mMultLayers[c]; l._DummyPrep(); }
  for (N c = 0; c < self.mOutputLayers.size(); ++c) { OutputLayer l = self.mOutputLayers[c]; l._DummyPrep(); }
}
FF own(Circuit& self, const std::vector<FF>& secrets) {
  scl::PRG prg;
  auto poly = EvPolyFromSecretsAndDegree(Vec(secrets), self.mBatchSize - 1, prg);
  return SharesFromEvPoly(poly, self.mParties)[self.mID];
}
void Circuit___DummyPrep__1(Circuit& self, FF v) {
  for (N i = 0; i < self.mInputGates.size(); ++i) self.mInputGates[i]->SetLambda(v);
  for (N l = 0; l < self.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mFlatMultLayers[l].size(); ++i) self.mFlatMultLayers[l][i]->SetDummyLambda(v);
  for (N i = 0; i < self.mOutputGates.size(); ++i) self.mOutputGates[i]->GetDummyLambda();
  for (N l = 0; l < self.mInputLayers.size(); ++l)
    for (N b = 0; b < self.mInputLayers[l].mBatches.size(); ++b) {
      auto batch = self.mInputLayers[l].mBatches[b];
      std::vector<FF> s;
      for (N i = 0; i < self.mBatchSize; ++i) s.push_back(batch->mInputGatesPtrs[i]->GetDummyLambda());
      batch->SetPreprocessing(own(self, s));
    }
  for (N l = 0; l < self.mOutputLayers.size(); ++l)
    for (N b = 0; b < self.mOutputLayers[l].mBatches.size(); ++b) {
      auto batch = self.mOutputLayers[l].mBatches[b];
      std::vector<FF> s;
      for (N i = 0; i < self.mBatchSize; ++i) s.push_back(batch->mOutputGatesPtrs[i]->GetDummyLambda());
      batch->SetPreprocessing(own(self, s));
    }
  for (N l = 0; l < self.mMultLayers.size(); ++l)
    for (N b = 0; b < self.mMultLayers[l].mBatches.size(); ++b) {
      auto batch = self.mMultLayers[l].mBatches[b];
      std::vector<FF> A, B, C;
      for (N i = 0; i < self.mBatchSize; ++i) {
        A.push_back(batch->mMultGatesPtrs[i]->mLeft->GetDummyLambda());
        B.push_back(batch->mMultGatesPtrs[i]->mRight->GetDummyLambda());
        C.push_back(batch->mMultGatesPtrs[i]->GetDummyLambda());
      }
      scl::PRG prg;
      auto pa = EvPolyFromSecretsAndDegree(Vec(A), self.mBatchSize - 1, prg);
      auto pb = EvPolyFromSecretsAndDegree(Vec(B), self.mBatchSize - 1, prg);
      auto pc = EvPolyFromSecretsAndDegree(Vec(C), self.mBatchSize - 1, prg);
      FF a = SharesFromEvPoly(pa, self.mParties)[self.mID];
      FF b2 = SharesFromEvPoly(pb, self.mParties)[self.mID];
      FF c = SharesFromEvPoly(pc, self.mParties)[self.mID];
      batch->SetPreprocessing(a, b2, a * b2 - c);
    }
}

// ---------------------------------------------------------------- online
void Circuit__SetInputs(Circuit& self, std::vector<FF> in) {
  if (in.size() != self.mFlatInputGates[self.mID].size()) throw std::invalid_argument("inputs");
  for (N i = 0; i < self.mFlatInputGates[self.mID].size(); ++i) self.mFlatInputGates[self.mID][i]->SetInput(in[i]);
}
void each_input_send(Circuit& self) {
  for (N c = 0; c < self.mClients; ++c)
    for (N i = 0; i < self.mFlatInputGates[c].size(); ++i) self.mFlatInputGates[c][i]->OwnerSendsP1();
}
void each_input_recv(Circuit& self) {
  for (N c = 0; c < self.mClients; ++c)
    for (N i = 0; i < self.mFlatInputGates[c].size(); ++i) self.mFlatInputGates[c][i]->P1Receives();
}
void each_output_send(Circuit& self) {
  for (N c = 0; c < self.mClients; ++c)
    for (N i = 0; i < self.mFlatOutputGates[c].size(); ++i) self.mFlatOutputGates[c][i]->P1SendsMu();
}
void each_output_recv(Circuit& self) {
  for (N c = 0; c < self.mClients; ++c)
    for (N i = 0; i < self.mFlatOutputGates[c].size(); ++i) self.mFlatOutputGates[c][i]->OwnerReceivesMu();
}
void layer(Circuit& self, N l) {
  self.mMultLayers[l].P1Sends();
  self.mMultLayers[l].PartiesReceive();
  self.mMultLayers[l].PartiesSend();
  self.mMultLayers[l].P1Receives();
}
void Circuit__InputOwnerSendsP1(Circuit& self) { each_input_send(self); }
void Circuit__InputP1Receives(Circuit& self) { each_input_recv(self); }
void Circuit__RunInput(Circuit& self) { each_input_send(self); each_input_recv(self); }
void Circuit__MultP1Sends(Circuit& self, N l) { self.mMultLayers[l].P1Sends(); }
void Circuit__MultPartiesReceive(Circuit& self, N l) { self.mMultLayers[l].PartiesReceive(); }
void Circuit__MultPartiesSend(Circuit& self, N l) { self.mMultLayers[l].PartiesSend(); }
void Circuit__MultP1Receives(Circuit& self, N l) { self.mMultLayers[l].P1Receives(); }
void Circuit__RunMult(Circuit& self, N l) { layer(self, l); }
void Circuit__OutputP1SendsMu(Circuit& self) { each_output_send(self); }
void Circuit__OutputOwnerReceivesMu(Circuit& self) { each_output_recv(self); }
void Circuit__RunOutput(Circuit& self) { each_output_send(self); each_output_recv(self); }
void Circuit__RunProtocol(Circuit& self) {
  each_input_send(self);
  each_input_recv(self);
  for (N l = 0; l < self.mMultLayers.size(); ++l) layer(self, l);
  each_output_send(self);
  each_output_recv(self);
}
std::vector<FF> Circuit__GetOutputs(Circuit& self) {
  std::vector<FF> out;
  for (N i = 0; i < self.mFlatOutputGates[self.mID].size(); ++i) out.push_back(self.mFlatOutputGates[self.mID][i]->mValue);
  return out;
}

Correlator Circuit__GetCorrelator(Circuit& self) { return self.mCorrelator; }
void Circuit__GenIOBatchDummy(Circuit& self) { self.mCorrelator.GenIOBatchDummy(); }
void Circuit__GenIndShrsDummy(Circuit& self, FF v) { self.mCorrelator.GenIndShrsDummy(v); }
void Circuit__GenMultBatchDummy(Circuit& self) { self.mCorrelator.GenMultBatchDummy(); }
void Circuit__PopulateDummyCorrelator__1(Circuit& self, FF v) { self.mCorrelator.GenPrepDummy(v); }
void Circuit__PopulateDummyCorrelator__0(Circuit& self) { self.mCorrelator.GenPrepDummy(); }
void Circuit__ctor__2(Circuit& self, N clients, N k) {
  spec_assume(self.mInputLayers.size() == 0);
  spec_assume(self.mOutputLayers.size() == 0);
  spec_assume(self.mMultLayers.size() == 0);
  spec_assume(self.mFlatInputGates.size() == 0);
  spec_assume(self.mFlatOutputGates.size() == 0);
  spec_assume(self.mFlatMultLayers.size() == 0);
  self.mBatchSize = k;
  self.mClients = clients;
  for (N c = 0; c < clients; ++c) {
    self.mInputLayers.push_back(InputLayer(c, k));
    self.mOutputLayers.push_back(OutputLayer(c, k));
  }
  self.mFlatInputGates.resize(clients);
  self.mFlatOutputGates.resize(clients);
  self.mMultLayers.push_back(MultLayer(k));
  self.mFlatMultLayers.push_back(std::vector<std::shared_ptr<MultGate>>());
  self.mIsNetworkSet = false;
  self.mIsClosed = false;
  self.mWidth = 0;
  self.mSize = 0;
}
}  // namespace spec
