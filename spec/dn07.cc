// DN07 baseline: n parties, threshold t, parties 0..t online, the last n-t-1
// contribute in the function-dependent phase only.
#include "prelude.h"
#if __has_include(<tpx_names.h>)
#include <tpx_names.h>  // members /repo has renamed (sa/program.py)
#endif
namespace spec {
using namespace tp;

void DN07__ctor(DN07& self, N n, N t) {
  spec_assume(self.mVandermonde.size() == 0);
  if (2 * t >= n) throw std::invalid_argument("t < n/2");
  self.mParties = n;
  self.mThreshold = t;
  self.mCTRDoubleShrs = 0;
  self.mCTRRandShrs = 0;
  for (N i = 0; i < n; ++i) {
    std::vector<FF> row;
    FF e(1);
    for (N j = 0; j <= t; ++j) {
      row.push_back(e);
      e = e * FF(i);
    }
    self.mVandermonde.push_back(row);
  }
}
void DN07__SetCircuit(DN07& self, Circuit& c) {
  self.mCircuit = c;
  self.mNInputs = c.mInputGates.size();
  self.mNMults = c.mSize;
}
void DN07__DummyPrep__1(DN07& self, FF v) {
  self.mDShrs = std::vector<DoubleShr>(self.mNMults, DoubleShr(v, v));
  self.mRShrs = std::vector<RandShr>(self.mNInputs, RandShr(v));
}
void DN07__DummyPrep__0(DN07& self) {
  self.mDShrs = std::vector<DoubleShr>(self.mNMults, DoubleShr(FF(0), FF(0)));
  self.mRShrs = std::vector<RandShr>(self.mNInputs, RandShr(FF(0)));
}
void DN07__SetInputs(DN07& self, std::vector<FF> in) {
  N me = self.mCircuit.mID;
  if (in.size() != self.mCircuit.mFlatInputGates[me].size()) throw std::invalid_argument("inputs");
  for (N i = 0; i < self.mCircuit.mFlatInputGates[me].size(); ++i) self.mCircuit.mFlatInputGates[me][i]->SetInput(in[i]);
}

void DN07__PrepPartiesSend(DN07& self) {
  auto net = self.mCircuit.mNetwork;
  N t = self.mThreshold;
  N nb = blocks(self.mNInputs, t);
  for (N b = 0; b < nb; ++b) {
    FF r = FF::Random(self.mPRG);
    auto s = SharesFromEvPoly(EvPolyFromSecretAndDegree(r, t, self.mPRG), self.mParties);
    for (N p = 0; p < self.mParties; ++p) net->Party(p)->Send(s[p]);
  }
  nb = blocks(self.mNMults, t);
  for (N b = 0; b < nb; ++b) {
    FF r = FF::Random(self.mPRG);
    auto f = EvPolyFromSecretAndDegree(r, t, self.mPRG);
    auto g = EvPolyFromSecretAndDegree(r, 2 * t, self.mPRG);
    auto s = SharesFromEvPoly(f, self.mParties);
    auto d = SharesFromEvPoly(g, self.mParties);
    for (N p = 0; p < self.mParties; ++p) {
      net->Party(p)->Send(s[p]);
      net->Party(p)->Send(d[p]);
    }
  }
}
FF combine(DN07& self, const std::vector<FF>& in, N s) {
  FF r(0);
  for (N p = 0; p < self.mParties; ++p) r += in[p] * self.mVandermonde[p][s];
  return r;
}
void DN07__PrepPartiesReceive(DN07& self) {
  auto net = self.mCircuit.mNetwork;
  N nb = blocks(self.mNInputs, self.mThreshold);
  for (N b = 0; b < nb; ++b) {
    std::vector<FF> in;
    for (N p = 0; p < self.mParties; ++p) {
      FF x;
      net->Party(p)->Recv(x);
      in.push_back(x);
    }
    for (N s = 0; s <= self.mThreshold; ++s) self.mRShrs.push_back(RandShr(combine(self, in, s)));
  }
  nb = blocks(self.mNMults, self.mThreshold);
  for (N b = 0; b < nb; ++b) {
    std::vector<FF> in, ind;
    for (N p = 0; p < self.mParties; ++p) {
      FF x, y;
      net->Party(p)->Recv(x);
      net->Party(p)->Recv(y);
      in.push_back(x);
      ind.push_back(y);
    }
    for (N s = 0; s <= self.mThreshold; ++s) self.mDShrs.push_back(DoubleShr(combine(self, in, s), combine(self, ind, s)));
  }
}
void DN07__FDMapPrepToGates(DN07& self) {
  for (N c = 0; c < self.mCircuit.mClients; ++c)
    for (N i = 0; i < self.mCircuit.mFlatInputGates[c].size(); ++i) {
      self.mMapInputs[self.mCircuit.mFlatInputGates[c][i]] = self.mCTRRandShrs;
      self.mCTRRandShrs = self.mCTRRandShrs + 1;
    }
  for (N l = 0; l < self.mCircuit.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mCircuit.mFlatMultLayers[l].size(); ++i) {
      self.mMapMults[self.mCircuit.mFlatMultLayers[l][i]] = self.mCTRDoubleShrs;
      self.mCTRDoubleShrs = self.mCTRDoubleShrs + 1;
    }
}
// share of the product minus the degree-2t share of the gate's own mask
FF masked_product(DN07& self, std::shared_ptr<MultGate> g) {
  FF p = g->mRight->GetDn07Share() * g->mLeft->GetDn07Share();
  p -= self.mDShrs[self.mMapMults[g]].dshr;
  return p;
}
void DN07__FDMultPartiesSendP1(DN07& self) {
  if (self.mCircuit.mID <= self.mThreshold) return;
  for (N c = 0; c < self.mCircuit.mClients; ++c)
    for (N i = 0; i < self.mCircuit.mFlatInputGates[c].size(); ++i) {
      auto g = self.mCircuit.mFlatInputGates[c][i];
      g->SetDn07Share(self.mRShrs[self.mMapInputs[g]].shr);
    }
  for (N l = 0; l < self.mCircuit.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mCircuit.mFlatMultLayers[l].size(); ++i) {
      auto g = self.mCircuit.mFlatMultLayers[l][i];
      g->SetDn07Share(self.mDShrs[self.mMapMults[g]].shr);
      self.mCircuit.mNetwork->Party(0)->Send(masked_product(self, g));
    }
}
void DN07__FDMultP1Receives(DN07& self) {
  for (N l = 0; l < self.mCircuit.mMultLayers.size(); ++l)
    for (N i = 0; i < self.mCircuit.mFlatMultLayers[l].size(); ++i) {
      if (self.mCircuit.mID != 0) continue;
      Vec in;
      for (N p = self.mThreshold + 1; p < self.mParties; ++p) {
        FF x;
        self.mCircuit.mNetwork->Party(p)->Recv(x);
        in.Emplace(x);
      }
      self.mMapP1SharesFromLast.push(in);
    }
}
// degree-t sharing of v, shares of the last t parties fixed to 0; first t+1 shares
Vec half_zero(DN07& self, FF v) {
  std::vector<FF> x, y;
  x.push_back(FF(0));
  y.push_back(v);
  for (N i = self.mParties - self.mThreshold; i < self.mParties; ++i) {
    x.push_back(FF(i + 1));
    y.push_back(FF(0));
  }
  auto poly = scl::details::EvPolynomial<FF>(Vec(x), Vec(y));
  return SharesFromEvPoly(poly, self.mThreshold + 1);
}
void DN07__InputPartiesSendOwners(DN07& self) {
  if (self.mCircuit.mID > self.mThreshold) return;
  for (N c = 0; c < self.mCircuit.mClients; ++c)
    for (N i = 0; i < self.mCircuit.mFlatInputGates[c].size(); ++i)
      self.mCircuit.mNetwork->Party(c)->Send(self.mRShrs[self.mMapInputs[self.mCircuit.mFlatInputGates[c][i]]].shr);
}
void DN07__InputOwnersReceiveAndSendParties(DN07& self) {
  N me = self.mCircuit.mID;
  for (N i = 0; i < self.mCircuit.mFlatInputGates[me].size(); ++i) {
    auto g = self.mCircuit.mFlatInputGates[me][i];
    if (g->mOwnerID != me) continue;
    std::vector<FF> in;
    for (N p = 0; p <= self.mThreshold; ++p) {
      FF x;
      self.mCircuit.mNetwork->Party(p)->Recv(x);
      in.push_back(x);
    }
    FF masked = g->mValue - SecretFromShares(Vec(in));
    Vec out = half_zero(self, masked);
    for (N p = 0; p <= self.mThreshold; ++p) self.mCircuit.mNetwork->Party(p)->Send(out[p]);
  }
}
void DN07__InputPartiesReceive(DN07& self) {
  if (self.mCircuit.mID > self.mThreshold) return;
  for (N c = 0; c < self.mCircuit.mClients; ++c)
    for (N i = 0; i < self.mCircuit.mFlatInputGates[c].size(); ++i) {
      auto g = self.mCircuit.mFlatInputGates[c][i];
      FF m;
      self.mCircuit.mNetwork->Party(c)->Recv(m);
      g->SetDn07Share(self.mRShrs[self.mMapInputs[g]].shr + m);
    }
}
void DN07__MultPartiesSendP1(DN07& self, N l) {
  if (self.mCircuit.mID > self.mThreshold) return;
  for (N i = 0; i < self.mCircuit.mFlatMultLayers[l].size(); ++i)
    self.mCircuit.mNetwork->Party(0)->Send(masked_product(self, self.mCircuit.mFlatMultLayers[l][i]));
}
void DN07__MultP1Receives(DN07& self, N l) {
  if (self.mCircuit.mID != 0) return;
  for (N i = 0; i < self.mCircuit.mFlatMultLayers[l].size(); ++i) {
    std::vector<FF> in;
    for (N p = 0; p <= self.mThreshold; ++p) {
      FF x;
      self.mCircuit.mNetwork->Party(p)->Recv(x);
      in.push_back(x);
    }
    Vec rest = self.mMapP1SharesFromLast.front();
    self.mMapP1SharesFromLast.pop();
    spec_assume(rest.Size() == self.mParties - self.mThreshold - 1);
    for (N p = self.mThreshold + 1; p < self.mParties; ++p) in.push_back(rest[p - self.mThreshold - 1]);
    self.mP1SharesToSend.push(half_zero(self, SecretFromShares(Vec(in))));
  }
}
void DN07__MultP1SendsParties(DN07& self, N l) {
  if (self.mCircuit.mID != 0) return;
  for (N i = 0; i < self.mCircuit.mFlatMultLayers[l].size(); ++i) {
    Vec out = self.mP1SharesToSend.front();
    self.mP1SharesToSend.pop();
    for (N p = 0; p <= self.mThreshold; ++p) self.mCircuit.mNetwork->Party(p)->Send(out[p]);
  }
}
void DN07__MultPartiesReceive(DN07& self, N l) {
  if (self.mCircuit.mID > self.mThreshold) return;
  for (N i = 0; i < self.mCircuit.mFlatMultLayers[l].size(); ++i) {
    auto g = self.mCircuit.mFlatMultLayers[l][i];
    FF m;
    self.mCircuit.mNetwork->Party(0)->Recv(m);
    g->SetDn07Share(m + self.mDShrs[self.mMapMults[g]].shr);
  }
}
void DN07__OutputPartiesSendOwners(DN07& self) {
  if (self.mCircuit.mID > self.mThreshold) return;
  for (N c = 0; c < self.mCircuit.mClients; ++c)
    for (N i = 0; i < self.mCircuit.mFlatOutputGates[c].size(); ++i)
      self.mCircuit.mNetwork->Party(c)->Send(self.mCircuit.mFlatOutputGates[c][i]->GetDn07Share());
}
void DN07__OutputOwnersReceive(DN07& self) {
  N me = self.mCircuit.mID;
  for (N i = 0; i < self.mCircuit.mFlatOutputGates[me].size(); ++i) {
    auto g = self.mCircuit.mFlatOutputGates[me][i];
    if (g->mOwnerID != me) continue;
    std::vector<FF> in;
    for (N p = 0; p <= self.mThreshold; ++p) {
      FF x;
      self.mCircuit.mNetwork->Party(p)->Recv(x);
      in.push_back(x);
    }
    self.mMapResults[g] = SecretFromShares(Vec(in));
  }
}
FF DN07__GetOutput(DN07& self, N owner, N i) { return self.mMapResults[self.mCircuit.mFlatOutputGates[owner][i]]; }

void DN07__PrecomputeVandermonde(DN07& self) {
  spec_assume(self.mVandermonde.size() == 0);
  for (N i = 0; i < self.mParties; ++i) {
    std::vector<FF> row;
    FF e(1);
    for (N j = 0; j <= self.mThreshold; ++j) {
      row.push_back(e);
      e = e * FF(i);
    }
    self.mVandermonde.push_back(row);
  }
}
void DN07__MultP1ReceivesAndSendsParties(DN07& self, N layer) {
  self.MultP1Receives(layer);
  self.MultP1SendsParties(layer);
}
void DoubleShr__ctor__2(DoubleShr& self, FF s, FF d) { self.shr = s; self.dshr = d; }
void DoubleShr__ctor__1(DoubleShr& self, FF s) { self.shr = s; self.dshr = s; }
void DoubleShr__ctor__0(DoubleShr& self) { self.shr = FF(0); self.dshr = FF(0); }
void RandShr__ctor__1(RandShr& self, FF s) { self.shr = s; }
void RandShr__ctor__0(RandShr& self) { self.shr = FF(0); }
}  // namespace spec
