// Wires: what the value, mask and share getters of every gate return.
#include "prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using namespace tp;

// ---- additions are local: the sum of the parents', computed once
FF AddGate__GetMu(AddGate& self) {
  if (self.mLearned) return self.mMu;
  self.mMu = self.mLeft->GetMu() + self.mRight->GetMu();
  self.mLearned = true;
  return self.mMu;
}
FF AddGate__GetClear(AddGate& self) {
  if (self.mEvaluated) return self.mClear;
  self.mClear = self.mLeft->GetClear() + self.mRight->GetClear();
  self.mEvaluated = true;
  return self.mClear;
}
FF AddGate__GetIndvShrLambda(AddGate& self) {
  if (self.mIndvShrLambdaCSet) return self.mIndvShrLambdaC;
  self.mIndvShrLambdaC = self.mLeft->GetIndvShrLambda() + self.mRight->GetIndvShrLambda();
  self.mIndvShrLambdaCSet = true;
  return self.mIndvShrLambdaC;
}
FF AddGate__GetDn07Share(AddGate& self) {
  if (self.mDn07Set) return self.mDn07Share;
  self.mDn07Share = self.mLeft->GetDn07Share() + self.mRight->GetDn07Share();
  self.mDn07Set = true;
  return self.mDn07Share;
}
FF AddGate__GetDummyLambda(AddGate& self) {
  if (self.mLambdaSet) return self.mLambda;
  self.mLambda = self.mLeft->GetDummyLambda() + self.mRight->GetDummyLambda();
  self.mLambdaSet = true;
  return self.mLambda;
}
void AddGate__ctor(AddGate& self, G left, G right) {
  self.mLeft = left;
  self.mRight = right;
  self.mLearned = false;
  self.mEvaluated = false;
  self.mIndvShrLambdaCSet = false;
  self.mDn07Set = false;
  self.mLambdaSet = false;
  self.mIsPadding = false;
}

// ---- base
void Gate___SetDummyMu(Gate& self, FF mu) { self.mLearned = true; self.mMu = mu; }
void Gate__SetDn07Share(Gate& self, FF s) { self.mDn07Set = true; self.mDn07Share = s; }
bool Gate__IsLearned(Gate& self) { return self.mLearned; }
bool Gate__IsEvaluated(Gate& self) { return self.mEvaluated; }
bool Gate__IsPadding(Gate& self) { return self.mIsPadding; }
FF Gate__GetShrLambda(Gate& self) { return self.mIndvShrLambdaC; }
G Gate__GetLeft(Gate& self) { return self.mLeft; }
G Gate__GetRight(Gate& self) { return self.mRight; }

// ---- multiplications: the masked value is only known once the protocol ran
FF MultGate__GetMu(MultGate& self) {
  if (self.mLearned) return self.mMu;
  throw std::invalid_argument("not learned");
}
FF MultGate__GetDummyLambda(MultGate& self) {
  if (self.mLambdaSet) return self.mLambda;
  throw std::invalid_argument("not set");
}
FF MultGate__GetIndvShrLambda(MultGate& self) {
  if (self.mIndvShrLambdaCSet) return self.mIndvShrLambdaC;
  throw std::invalid_argument("not set");
}
FF MultGate__GetDn07Share(MultGate& self) {
  if (self.mDn07Set) return self.mDn07Share;
  throw std::invalid_argument("not set");
}
FF MultGate__GetClear(MultGate& self) {
  if (self.mEvaluated) return self.mClear;
  self.mClear = self.mLeft->GetClear() * self.mRight->GetClear();
  self.mEvaluated = true;
  return self.mClear;
}
void MultGate__SetDummyLambda(MultGate& self, FF l) { self.mLambdaSet = true; self.mLambda = l; }
void MultGate__SetIndvShrLambda(MultGate& self, FF s) { self.mIndvShrLambdaCSet = true; self.mIndvShrLambdaC = s; }
void MultGate__ctor(MultGate& self, G left, G right) {
  self.mLeft = left;
  self.mRight = right;
  self.mLearned = false;
  self.mEvaluated = false;
  self.mIndvShrLambdaCSet = false;
  self.mDn07Set = false;
  self.mLambdaSet = false;
  self.mIsPadding = false;
}

// ---- inputs
void InputGate__ctor(InputGate& self, N owner) {
  self.mOwnerID = owner;
  self.mLearned = false;
  self.mEvaluated = false;
  self.mIndvShrLambdaCSet = false;
  self.mDn07Set = false;
  self.mLambdaSet = false;
  self.mIsPadding = false;
}
void InputGate__ClearInput(InputGate& self, FF v) { self.mEvaluated = true; self.mClear = v; }
N InputGate__GetOwner(InputGate& self) { return self.mOwnerID; }
FF InputGate__GetMu(InputGate& self) {
  if (self.mLearned) return self.mMu;
  throw std::invalid_argument("not learned");
}
void InputGate__SetLambda(InputGate& self, FF l) { self.mLambdaSet = true; self.mLambda = l; }
FF InputGate__GetDummyLambda(InputGate& self) {
  if (self.mLambdaSet) return self.mLambda;
  throw std::invalid_argument("not set");
}
void InputGate__SetIndvShrLambda(InputGate& self, FF s) { self.mIndvShrLambdaCSet = true; self.mIndvShrLambdaC = s; }
FF InputGate__GetIndvShrLambda(InputGate& self) {
  if (self.mIndvShrLambdaCSet) return self.mIndvShrLambdaC;
  throw std::invalid_argument("not set");
}
FF InputGate__GetDn07Share(InputGate& self) {
  if (self.mDn07Set) return self.mDn07Share;
  throw std::invalid_argument("not set");
}
FF InputGate__GetClear(InputGate& self) {
  if (self.mEvaluated) return self.mClear;
  throw std::invalid_argument("not set");
}
void InputGate__SetNetwork(InputGate& self, Net net, N id) {
  self.mID = id;
  self.mNetwork = net;
  self.mParties = net->Size();
}
// only the owner knows the mask and the value
void InputGate___DummyPrep(InputGate& self, FF l) { if (self.mOwnerID == self.mID) self.mLambda = l; }
void InputGate__SetInput(InputGate& self, FF v) { if (self.mOwnerID == self.mID) self.mValue = v; }
FF InputGate__GetValue(InputGate& self) { return self.mValue; }
// the owner opens value minus mask to P1, and nobody else sends
void InputGate__OwnerSendsP1(InputGate& self) {
  if (self.mOwnerID != self.mID) return;
  FF masked = self.mValue;
  masked -= self.mLambda;
  self.mNetwork->Party(0)->Send(masked);
}
void InputGate__P1Receives(InputGate& self) {
  if (self.mID != 0) return;
  FF masked;
  self.mNetwork->Party(self.mOwnerID)->Recv(masked);
  self.mMu = masked;
  self.mLearned = true;
}

// ---- outputs forward their single parent
void OutputGate__ctor(OutputGate& self, N owner, G g) {
  self.mOwnerID = owner;
  self.mLeft = g;
  self.mLearned = false;
  self.mEvaluated = false;
  self.mIndvShrLambdaCSet = false;
  self.mDn07Set = false;
  self.mLambdaSet = false;
  self.mIsPadding = false;
}
N OutputGate__GetOwner(OutputGate& self) { return self.mOwnerID; }
FF OutputGate__GetMu(OutputGate& self) {
  if (self.mLearned) return self.mMu;
  self.mMu = self.mLeft->GetMu();
  self.mLearned = true;
  return self.mMu;
}
FF OutputGate__GetDummyLambda(OutputGate& self) {
  if (self.mLambdaSet) return self.mLambda;
  self.mLambda = self.mLeft->GetDummyLambda();
  self.mLambdaSet = true;
  return self.mLambda;
}
FF OutputGate__GetIndvShrLambda(OutputGate& self) {
  if (self.mIndvShrLambdaCSet) return self.mIndvShrLambdaC;
  self.mIndvShrLambdaC = self.mLeft->GetIndvShrLambda();
  self.mIndvShrLambdaCSet = true;
  return self.mIndvShrLambdaC;
}
FF OutputGate__GetDn07Share(OutputGate& self) {
  if (self.mDn07Set) return self.mDn07Share;
  self.mDn07Share = self.mLeft->GetDn07Share();
  self.mDn07Set = true;
  return self.mDn07Share;
}
FF OutputGate__GetClear(OutputGate& self) {
  if (self.mEvaluated) return self.mClear;
  self.mClear = self.mLeft->GetClear();
  self.mEvaluated = true;
  return self.mClear;
}
void OutputGate__SetLambda(OutputGate& self, FF l) { self.mLambdaSet = true; self.mLambda = l; }
void OutputGate__SetNetwork(OutputGate& self, Net net, N id) {
  self.mID = id;
  self.mNetwork = net;
  self.mParties = net->Size();
}
void OutputGate___DummyPrep(OutputGate& self, FF l) { if (self.mOwnerID == self.mID) self.mLambda = l; }
// P1 reveals the masked value only to the owner, who adds the mask back
void OutputGate__P1SendsMu(OutputGate& self) {
  if (self.mID != 0) return;
  FF mu = self.GetMu();
  self.mNetwork->Party(self.mOwnerID)->Send(mu);
}
void OutputGate__OwnerReceivesMu(OutputGate& self) {
  if (self.mID != self.mOwnerID) return;
  FF mu;
  self.mNetwork->Party(0)->Recv(mu);
  self.mValue = mu + self.mLambda;
}
FF OutputGate__GetValue(OutputGate& self) { return self.mValue; }

// ---- padding gates carry the constant zero on a zero mask
FF PadMultGate__GetMu(PadMultGate& self) { return FF(0); }
FF PadMultGate__GetDummyLambda(PadMultGate& self) { return FF(0); }
FF PadInputGate__GetMu(PadInputGate& self) { return FF(0); }
FF PadInputGate__GetDummyLambda(PadInputGate& self) { return FF(0); }
FF PadInputGate__GetIndvShrLambda(PadInputGate& self) { return FF(0); }
FF PadMultGate__GetIndvShrLambda(PadMultGate& self) { return FF(0); }
FF PadMultGate__GetDn07Share(PadMultGate& self) { return FF(0); }
FF PadMultGate__GetClear(PadMultGate& self) { return FF(0); }
FF PadInputGate__GetDn07Share(PadInputGate& self) { return FF(0); }
FF PadInputGate__GetClear(PadInputGate& self) { return FF(0); }
FF PadOutputGate__GetIndvShrLambda(PadOutputGate& self) { return FF(0); }
FF PadOutputGate__GetDn07Share(PadOutputGate& self) { return FF(0); }
FF PadOutputGate__GetClear(PadOutputGate& self) { return FF(0); }
FF PadOutputGate__GetMu(PadOutputGate& self) { return FF(0); }
FF PadOutputGate__GetDummyLambda(PadOutputGate& self) { return FF(0); }
void PadMultGate__ctor(PadMultGate& self) { self.mIsPadding = true; }
void PadInputGate__ctor(PadInputGate& self, N owner) { self.mIsPadding = true; self.mOwnerID = owner; }
void PadOutputGate__ctor(PadOutputGate& self, N owner) { self.mIsPadding = true; self.mOwnerID = owner; }
void PadMultGate__UpdateParents(PadMultGate& self, G l, G r) { self.mLeft = l; self.mRight = r; }
void PadOutputGate__UpdateParent(PadOutputGate& self, G l) { self.mLeft = l; }
void InputGate___DummyPrep__0(InputGate& self) { if (self.mID == self.mOwnerID) self.InputGate::mLambda = FF(0); }
void OutputGate___DummyPrep__0(OutputGate& self) { if (self.mID == self.mOwnerID) self.OutputGate::mLambda = FF(0); }
}  // namespace spec
