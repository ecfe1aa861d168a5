// Correlator: function-independent and function-dependent preprocessing.
#include "prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using namespace tp;

void Correlator__ctor(Correlator& self, N ind, N mults, N io, N k) {
  self.mNIndShrs = ind;
  self.mNMultBatches = mults;
  self.mNInOutBatches = io;
  self.mBatchSize = k;
  self.mCTRIndShrs = 0;
  self.mCTRMultBatches = 0;
  self.mCTRInOutBatches = 0;
}
void Correlator__SetNetwork(Correlator& self, Net net, N id) {
  self.mParties = net->Size();
  self.mID = id;
  self.mNetwork = net;
}
void Correlator__SetThreshold(Correlator& self, N t) {
  if (self.mParties != t + 2 * self.mBatchSize - 1) throw std::invalid_argument("n = t + 2(k-1) + 1");
  if (2 * t >= self.mParties) throw std::invalid_argument("t < n/2");
  self.mThreshold = t;
}
// share of the i-th unit vector at this party's evaluation point id+1; secret
// slot j lives at -j
void Correlator__PrecomputeEi(Correlator& self) {
  for (N i = 0; i < self.mBatchSize; ++i) {
    FF num(1);
    FF x(self.mID + 1);
    for (N j = 0; j < self.mBatchSize; ++j) {
      if (i == j) continue;
      num = num * ((x - (FF(0) - FF(j))) / ((FF(0) - FF(i)) - (FF(0) - FF(j))));
    }
    self.mSharesOfEi.push_back(num);
  }
}
void Correlator__PrecomputeVandermonde(Correlator& self) {
  spec_assume(self.mVandermonde.size() == 0);
  for (N i = 0; i < self.mParties; ++i) {
    std::vector<FF> row;
    FF e(1);
    for (N j = 0; j <= self.mThreshold; ++j) {
      row.push_back(e);
      e = e * FF(i);
    }
    self.mVandermonde.push_back(row);
  }
}

// ---------------------------------------------------------------- sharings
void deal(Correlator& self, const scl::details::EvPolynomial<FF>& poly) {
  auto shares = SharesFromEvPoly(poly, self.mParties);
  for (N p = 0; p < self.mParties; ++p) self.mNetwork->Party(p)->Send(shares[p]);
}
// each party deals; extracted sharing number s is row-combination s of what arrived
std::vector<FF> collect(Correlator& self) {
  std::vector<FF> in;
  for (N p = 0; p < self.mParties; ++p) {
    FF x;
    self.mNetwork->Party(p)->Recv(x);
    in.push_back(x);
  }
  return in;
}
FF extract(Correlator& self, const std::vector<FF>& in, N s) {
  FF r(0);
  for (N p = 0; p < self.mParties; ++p) r += in[p] * self.mVandermonde[p][s];
  return r;
}

// one random value in all k slots, degree n-k
void Correlator__GenIndShrsPartiesSend(Correlator& self) {
  N nb = blocks(self.mNIndShrs, self.mThreshold);
  for (N b = 0; b < nb; ++b) {
    FF r = FF::Random(self.mPRG);
    std::vector<FF> slots(self.mBatchSize, r);
    deal(self, EvPolyFromSecretsAndDegree(Vec(slots), self.mParties - self.mBatchSize, self.mPRG));
  }
}
void Correlator__GenIndShrsPartiesReceive(Correlator& self) {
  N nb = blocks(self.mNIndShrs, self.mThreshold);
  for (N b = 0; b < nb; ++b) {
    auto in = collect(self);
    for (N s = 0; s <= self.mThreshold; ++s) self.mIndShrs.push_back(extract(self, in, s));
  }
}
// one random value in slot `slot`, degree t; 3 per batch (A, B, mask)
void Correlator__GenUnpackedShrPartiesSend(Correlator& self) {
  N nb = blocks(3 * self.mNMultBatches, self.mThreshold);
  for (N slot = 0; slot < self.mBatchSize; ++slot)
    for (N b = 0; b < nb; ++b) {
      FF r = FF::Random(self.mPRG);
      deal(self, EvPolyFromSecretAndPointAndDegree(r, FF(-slot), self.mThreshold, self.mPRG));
    }
}
void Correlator__GenUnpackedShrPartiesReceive(Correlator& self) {
  spec_assume(self.mUnpackedShrsA.size() == 0);
  spec_assume(self.mUnpackedShrsB.size() == 0);
  spec_assume(self.mUnpackedShrsMask.size() == 0);
  N m = self.mNMultBatches;
  N nb = blocks(3 * m, self.mThreshold);
  for (N slot = 0; slot < self.mBatchSize; ++slot) {
    std::vector<FF> A, B, M;
    N c = 0;
    for (N b = 0; b < nb; ++b) {
      auto in = collect(self);
      for (N s = 0; s <= self.mThreshold; ++s) {
        FF v = extract(self, in, s);
        if (c < m) A.push_back(v);
        else if (c < 2 * m) B.push_back(v);
        else if (c < 3 * m) M.push_back(v);
        c++;
      }
    }
    self.mUnpackedShrsA.push_back(A);
    self.mUnpackedShrsB.push_back(B);
    self.mUnpackedShrsMask.push_back(M);
  }
  for (N i = 0; i < m; ++i) {
    MultBatchFIPrep d;
    FF a(0), b(0);
    for (N slot = 0; slot < self.mBatchSize; ++slot) {
      a += self.mUnpackedShrsA[slot][i] * self.mSharesOfEi[slot];
      b += self.mUnpackedShrsB[slot][i] * self.mSharesOfEi[slot];
    }
    d.mShrA = a;
    d.mShrB = b;
    d.mShrC = FF(0);
    d.mShrO1 = FF(0);
    d.mShrO2 = FF(0);
    d.mShrO3 = FF(0);
    self.mMultBatchFIPrep.push_back(d);
  }
}
// zero in all k slots, degree n-1; 3 per mult batch then 1 per input/output batch
void Correlator__GenZeroPartiesSend(Correlator& self) {
  N nb = blocks(3 * self.mNMultBatches + self.mNInOutBatches, self.mThreshold);
  for (N b = 0; b < nb; ++b) {
    std::vector<FF> slots(self.mBatchSize, FF(0));
    deal(self, EvPolyFromSecretsAndDegree(Vec(slots), self.mParties - 1, self.mPRG));
  }
}
// every extracted sharing serves one purpose only
void Correlator__GenZeroPartiesReceive(Correlator& self) {
  N m = self.mNMultBatches;
  N nb = blocks(3 * m + self.mNInOutBatches, self.mThreshold);
  N c = 0;
  for (N b = 0; b < nb; ++b) {
    auto in = collect(self);
    for (N s = 0; s <= self.mThreshold; ++s) {
      FF v = extract(self, in, s);
      if (c < m) self.mMultBatchFIPrep[c].mShrO1 = v;
      else if (c < 2 * m) self.mMultBatchFIPrep[c - m].mShrO2 = v;
      else if (c < 3 * m) self.mMultBatchFIPrep[c - 2 * m].mShrO3 = v;
      else {
        IOBatchFIPrep d;
        d.mShrO = v;
        self.mIOBatchFIPrep.push_back(d);
      }
      c++;
    }
  }
}
// zero in slot `slot`, degree n-1; one per batch
void Correlator__GenZeroForProdPartiesSend(Correlator& self) {
  N nb = blocks(self.mNMultBatches, self.mThreshold);
  for (N slot = 0; slot < self.mBatchSize; ++slot)
    for (N b = 0; b < nb; ++b)
      deal(self, EvPolyFromSecretAndPointAndDegree(FF(0), FF(-slot), self.mParties - 1, self.mPRG));
}
void Correlator__GenZeroForProdPartiesReceive(Correlator& self) {
  spec_assume(self.mZeroProdShrs.size() == 0);
  N nb = blocks(self.mNMultBatches, self.mThreshold);
  for (N slot = 0; slot < self.mBatchSize; ++slot) {
    std::vector<FF> row;
    for (N b = 0; b < nb; ++b) {
      auto in = collect(self);
      for (N s = 0; s <= self.mThreshold; ++s) row.push_back(extract(self, in, s));
    }
    self.mZeroProdShrs.push_back(row);
  }
}

// ---------------------------------------------------------------- products
// a*b, hidden by the random mask sharing and re-randomised by a zero sharing
void Correlator__GenProdPartiesSendP1(Correlator& self) {
  for (N slot = 0; slot < self.mBatchSize; ++slot)
    for (N b = 0; b < self.mNMultBatches; ++b) {
      FF s = self.mUnpackedShrsMask[slot][b];
      s += self.mZeroProdShrs[slot][b];
      s += self.mUnpackedShrsB[slot][b] * self.mUnpackedShrsA[slot][b];
      self.mNetwork->Party(0)->Send(s);
    }
}
// P1 opens it in its slot and returns a degree-t sharing whose first t shares are 0
void Correlator__GenProdP1ReceivesAndSends(Correlator& self) {
  if (self.mID != 0) return;
  for (N slot = 0; slot < self.mBatchSize; ++slot)
    for (N b = 0; b < self.mNMultBatches; ++b) {
      auto in = collect(self);
      FF v = SecretFromPointAndShares(FF(-slot), Vec(in));
      std::vector<FF> x, y;
      x.push_back(FF(-slot));
      y.push_back(v);
      for (N i = 1; i <= self.mThreshold; ++i) {
        x.push_back(FF(i));
        y.push_back(FF(0));
      }
      auto poly = scl::details::EvPolynomial<FF>(Vec(x), Vec(y));
      auto out = SharesFromEvPoly(poly, self.mParties);
      for (N p = self.mThreshold; p < self.mParties; ++p) self.mNetwork->Party(p)->Send(out[p]);
    }
}
void Correlator__GenProdPartiesReceive(Correlator& self) {
  spec_assume(self.mMultBatchFIPrep.size() >= self.mNMultBatches);
  std::vector<std::vector<FF>> prod;
  for (N slot = 0; slot < self.mBatchSize; ++slot) {
    std::vector<FF> row;
    for (N b = 0; b < self.mNMultBatches; ++b) {
      FF r(0);
      if (self.mID >= self.mThreshold) self.mNetwork->Party(0)->Recv(r);
      row.push_back(r - self.mUnpackedShrsMask[slot][b]);
    }
    prod.push_back(row);
  }
  for (N i = 0; i < self.mNMultBatches; ++i) {
    FF c = self.mMultBatchFIPrep[i].mShrC;
    for (N slot = 0; slot < self.mBatchSize; ++slot) c += prod[slot][i] * self.mSharesOfEi[slot];
    self.mMultBatchFIPrep[i].mShrC = c;
  }
}

// ---------------------------------------------------------------- assignment to gates and batches
void Correlator__PopulateIndvShrs__MultGate(Correlator& self, std::shared_ptr<MultGate> g) {
  if (g->mIsPadding) return;
  self.mMapIndShrs[g] = self.mIndShrs[self.mCTRIndShrs];
  self.mCTRIndShrs = self.mCTRIndShrs + 1;
}
void Correlator__PopulateIndvShrs__InputGate(Correlator& self, std::shared_ptr<InputGate> g) {
  if (g->mIsPadding) return;
  self.mMapIndShrs[g] = self.mIndShrs[self.mCTRIndShrs];
  self.mCTRIndShrs = self.mCTRIndShrs + 1;
}
void Correlator__PopulateIndvShrs__AddGate(Correlator& self, std::shared_ptr<AddGate> g) {
  FF l = self.mMapIndShrs[g->mLeft];
  FF r = self.mMapIndShrs[g->mRight];
  self.mMapIndShrs[g] = l + r;
}
void Correlator__PopulateIndvShrs__OutputGate(Correlator& self, std::shared_ptr<OutputGate> g) {
  FF l = self.mMapIndShrs[g->mLeft];
  self.mMapIndShrs[g] = l;
}
void Correlator__PopulateMultBatches(Correlator& self, std::shared_ptr<MultBatch> b) {
  N i = self.mCTRMultBatches;
  self.mCTRMultBatches = i + 1;
  self.mMapMultBatch[b] = self.mMultBatchFIPrep[i];
}
void Correlator__PopulateInputBatches(Correlator& self, std::shared_ptr<InputBatch> b) {
  N i = self.mCTRInOutBatches;
  self.mCTRInOutBatches = i + 1;
  self.mMapInputBatch[b] = self.mIOBatchFIPrep[i];
}
void Correlator__PopulateOutputBatches(Correlator& self, std::shared_ptr<OutputBatch> b) {
  N i = self.mCTRInOutBatches;
  self.mCTRInOutBatches = i + 1;
  self.mMapOutputBatch[b] = self.mIOBatchFIPrep[i];
}

// ---------------------------------------------------------------- function-dependent preprocessing
// packed share of the k individual masks, re-randomised by a fresh zero sharing, to the owner only
void Correlator__PrepInputPartiesSendOwner(Correlator& self, std::shared_ptr<InputBatch> batch) {
  FF s(0);
  for (N i = 0; i < self.mBatchSize; ++i) s += self.mMapIndShrs[batch->mInputGatesPtrs[i]] * self.mSharesOfEi[i];
  s += self.mMapInputBatch[batch].mShrO;
  self.mNetwork->Party(batch->mOwnerID)->Send(s);
}
void Correlator__PrepOutputPartiesSendOwner(Correlator& self, std::shared_ptr<OutputBatch> batch) {
  FF s(0);
  for (N i = 0; i < self.mBatchSize; ++i) s += self.mMapIndShrs[batch->mOutputGatesPtrs[i]] * self.mSharesOfEi[i];
  s += self.mMapOutputBatch[batch].mShrO;
  self.mNetwork->Party(batch->mOwnerID)->Send(s);
}
void Correlator__PrepInputOwnerReceives(Correlator& self, std::shared_ptr<InputBatch> batch) {
  if (self.mID != batch->mOwnerID) return;
  auto secrets = SecretsFromSharesAndLength(Vec(collect(self)), self.mBatchSize);
  for (N i = 0; i < self.mBatchSize; ++i) batch->mInputGatesPtrs[i]->SetLambda(secrets[i]);
}
void Correlator__PrepOutputOwnerReceives(Correlator& self, std::shared_ptr<OutputBatch> batch) {
  if (self.mID != batch->mOwnerID) return;
  auto secrets = SecretsFromSharesAndLength(Vec(collect(self)), self.mBatchSize);
  for (N i = 0; i < self.mBatchSize; ++i) batch->mOutputGatesPtrs[i]->SetLambda(secrets[i]);
}
// the masks of both inputs of every gate, each hidden by a different random
// sharing and a different zero sharing
void Correlator__PrepMultPartiesSendP1(Correlator& self, std::shared_ptr<MultBatch> batch) {
  MultBatchFIPrep d = self.mMapMultBatch[batch];
  FF a = d.mShrA + d.mShrO1;
  FF b = d.mShrB + d.mShrO2;
  for (N i = 0; i < self.mBatchSize; ++i) {
    a += self.mMapIndShrs[batch->mMultGatesPtrs[i]->mLeft] * self.mSharesOfEi[i];
    b += self.mMapIndShrs[batch->mMultGatesPtrs[i]->mRight] * self.mSharesOfEi[i];
  }
  self.mNetwork->Party(0)->Send(a);
  self.mNetwork->Party(0)->Send(b);
}
void Correlator__PrepMultP1ReceivesAndSends(Correlator& self) {
  if (self.mID != 0) return;
  std::vector<FF> ia, ib;
  for (N p = 0; p < self.mParties; ++p) {
    FF x, y;
    self.mNetwork->Party(p)->Recv(x);
    self.mNetwork->Party(p)->Recv(y);
    ia.push_back(x);
    ib.push_back(y);
  }
  auto va = SecretsFromSharesAndLength(Vec(ia), self.mBatchSize);
  auto vb = SecretsFromSharesAndLength(Vec(ib), self.mBatchSize);
  auto pa = EvPolyFromSecretsAndDegree(va, self.mBatchSize - 1, self.mPRG);
  auto pb = EvPolyFromSecretsAndDegree(vb, self.mBatchSize - 1, self.mPRG);
  auto sa = SharesFromEvPoly(pa, self.mParties);
  auto sb = SharesFromEvPoly(pb, self.mParties);
  for (N p = 0; p < self.mParties; ++p) {
    self.mNetwork->Party(p)->Send(sa[p]);
    self.mNetwork->Party(p)->Send(sb[p]);
  }
}
// lambda_A lambda_B - lambda_C from A' = lambda_A + a, B' = lambda_B + b and c = a b
void Correlator__PrepMultPartiesReceive(Correlator& self, std::shared_ptr<MultBatch> batch) {
  FF A, B;
  self.mNetwork->Party(0)->Recv(A);
  self.mNetwork->Party(0)->Recv(B);
  MultBatchFIPrep d = self.mMapMultBatch[batch];
  FF delta = (A - d.mShrA) * (B - d.mShrB) - d.mShrA * d.mShrB + d.mShrC + d.mShrO3;
  for (N i = 0; i < self.mBatchSize; ++i) delta -= self.mMapIndShrs[batch->mMultGatesPtrs[i]] * self.mSharesOfEi[i];
  batch->SetPreprocessing(A - d.mShrA, B - d.mShrB, delta);
}
void Correlator__GenIndShrsDummy(Correlator& self, FF l) { self.mIndShrs = std::vector<FF>(self.mNIndShrs, l); }
void Correlator__GenMultBatchDummy(Correlator& self) {
  self.mMultBatchFIPrep = std::vector<MultBatchFIPrep>(self.mNMultBatches, MultBatchFIPrep());
}
void Correlator__GenIOBatchDummy(Correlator& self) {
  self.mIOBatchFIPrep = std::vector<IOBatchFIPrep>(self.mNInOutBatches, IOBatchFIPrep());
}

void Correlator__GenPrepDummy__1(Correlator& self, FF v) {
  self.mIndShrs = std::vector<FF>(self.mNIndShrs, v);
  self.mMultBatchFIPrep = std::vector<MultBatchFIPrep>(self.mNMultBatches, MultBatchFIPrep());
  self.mIOBatchFIPrep = std::vector<IOBatchFIPrep>(self.mNInOutBatches, IOBatchFIPrep());
}
void Correlator__GenPrepDummy__0(Correlator& self) {
  self.mIndShrs = std::vector<FF>(self.mNIndShrs, FF(0));
  self.mMultBatchFIPrep = std::vector<MultBatchFIPrep>(self.mNMultBatches, MultBatchFIPrep());
  self.mIOBatchFIPrep = std::vector<IOBatchFIPrep>(self.mNInOutBatches, IOBatchFIPrep());
}
void MultBatchFIPrep__ctor__1(MultBatchFIPrep& self, FF v) {
  self.mShrA = v;
  self.mShrB = v;
  self.mShrC = v * v;
  self.mShrO1 = FF(0);
  self.mShrO2 = FF(0);
  self.mShrO3 = FF(0);
}
void MultBatchFIPrep__ctor__0(MultBatchFIPrep& self) {
  self.mShrA = FF(0);
  self.mShrB = FF(0);
  self.mShrC = FF(0);
  self.mShrO1 = FF(0);
  self.mShrO2 = FF(0);
  self.mShrO3 = FF(0);
}
void IOBatchFIPrep__ctor__0(IOBatchFIPrep& self) { self.mShrO = FF(0); }
}  // namespace spec
