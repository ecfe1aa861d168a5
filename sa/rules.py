"""The properties: text, and the obligations that decide each one.

fns: specification functions (spec/*.cc) whose code counterpart must refine
them; an entry may be (name, {aspects}) to restrict the observables.
Aspects: send (values), sendskel / recvskel (peer order, element types),
call, throws, ret, heap, out, touch.
"""


def _calls(name):
    """calls whose mutual order matters share a group; '*' groups are unordered"""
    n = str(name)
    m = n.split("::")[-1].split("(")[0]
    if m.startswith("PopulateIndvShrs"):
        return "ind"
    if m.startswith("PopulateMultBatches"):
        return "mult"
    if m.startswith(("PopulateInputBatches", "PopulateOutputBatches")):
        return "io"
    if m in ("GenIndShrsDummy", "GenMultBatchDummy", "GenIOBatchDummy"):
        return "*dummy"
    if "Correlator" in n:
        return ""
    if m.startswith(("SetNetwork", "_DummyPrep", "SetPreprocessing", "PrepFromDummyLambdas")):
        return "*" + m
    return ""


DEFAULT = {"group": _calls}
ROB = {"prim": {"solver": True}, "models": 2500, "tries": 4000, "least": 1500}
OPTS = {"SCL__ReconstructShamirRobust__3": ROB, "SCL__ReconstructShamirRobust__2": ROB,
        "DCR": {"models": 3000, "tries": 12000, "budget": 20000000}, "DSV": {"wall": 30}, "SHA": {"models": 8, "least": 4, "budget": 20000000},
        "NET": {"iso": True, "oob": True, "group": lambda name: str(name)}, "CFG": {"oob": True}, "SD": {"oob": True},
        "STR": {"models": 60, "least": 60, "wall": 60, "oob": True}}


M61, M127 = (1 << 61) - 1, (1 << 127) - 1
INT = (-(1 << 31), (1 << 31) - 1)
FV = "scl::details::FF<%d, scl::details::FiniteField<scl::details::NamedField::Mersenne%d>>::mValue"


def _hash(b):
    f = "scl::details::Hash<%d>::" % b
    return {f + "mByteIndex": (0, 7), f + "mWordIndex": (0, 24 - b // 32), "a2": (0, 1 << 16, 40), f + "mState": (25, 25), f + "mStateBytes": (200, 200), "a1.mem": (1 << 17, 1 << 17, 41)}


# machine-level obligations: intervals of their inputs
BITS = {
    "F61": {"bound": {"a0": (0, M61 - 1), "a1": (0, M61 - 1)}},
    "F127": {"bound": {"a0": (0, M127 - 1), "a1": (0, M127 - 1)}},
    "FA": {"bound": {FV % (61, 61): (0, M61 - 1)}}, "FB": {"bound": {FV % (127, 127): (0, M127 - 1)}},
    "IMC": {"bound": {"a2": (0, 1 << 16, 6), "a1.mem": (1 << 17, 1 << 17, 9)}}, "TCP": {"bound": {"a2": (0, 1 << 16, 6), "a1": (9, 9), "a1.mem": (1 << 17, 1 << 17, 9), "ioret": (-1, 1 << 16, 4)}},
    "TS": {"bound": {"a2": (0, 1 << 16, 6), "a1": (9, 9), "a1.mem": (1 << 17, 1 << 17, 9), "ioret": (-1, 1 << 16, 4)}},
    "CH": {"bound": {FV % (61, 61): (0, M61 - 1), FV % (127, 127): (0, M127 - 1)}},
    "VB": {"bound": {"a1.mem": (300, 300), FV % (61, 61): (0, M61 - 1), "a0": (0, 6)}}, "MB": {"bound": {"a1.mem": (300, 300), FV % (61, 61): (0, M61 - 1), "a0": (0, 4), "a1": (0, 4)}},
    "VH": {"bound": {"a1.mem": (300, 300), FV % (127, 127): (0, M127 - 1), "a0": (0, 6)}}, "MH": {"bound": {"a1.mem": (300, 300), FV % (127, 127): (0, M127 - 1), "a0": (0, 4), "a1": (0, 4)}},
    "VG": {"bound": {"a1.mem": (300, 300), "a0": (0, 6)}, "modulo": 1 << 44}, "MG": {"bound": {"a1.mem": (300, 300), "a0": (0, 4), "a1": (0, 4)}, "modulo": 1 << 44},
    "VI": {"bound": {"a1.mem": (300, 300), "a0": (0, 6)}, "modulo": 2}, "MI": {"bound": {"a1.mem": (300, 300), "a0": (0, 4), "a1": (0, 4)}, "modulo": 2},
    "RING": {"bound": {FV % (61, 61): (0, M61 - 1), FV % (127, 127): (0, M127 - 1)}}, "STR": {}, "STR__FromStringBase64__u64": {"prim": {"b64": True}}, "STR__FromStringBase64__u128": {"prim": {"b64": True}},
    "ZA": {"modulo": 1 << 32}, "ZB": {"modulo": 1 << 62}, "ZC": {"modulo": 1 << 123},
    "ZD": {"modulo": 1 << 1}, "ZE": {"modulo": 1 << 8}, "ZF": {"modulo": 1 << 44}, "ZG": {"modulo": 1 << 64},
    "ZH": {"modulo": 1 << 90}, "ZI": {"modulo": 1 << 128},
    "SHA": {"prim": {"keccak": False}, "bound": {"a0.mem": (25, 25)}},
    "HA": {"bound": _hash(256)}, "HB": {"bound": _hash(384)}, "HC": {"bound": _hash(512)},
    "PG": {"prim": {"next_opaque": False}, "bound": {"a2": (0, 1 << 16, 40), "a1": (0, 1 << 16, 40), "scl::PRG::mState": (11, 11), "scl::PRG::mSeed": (16, 16), "a1.mem": (1 << 17, 1 << 17, 41), "scl::PRG::mCounter": (0, 1 << 40)}},
    "AB": {"bound": {FV % (61, 61): (0, M61 - 1), FV % (127, 127): (0, M127 - 1)}},
    "F61__FromInt": {"bound": {"a0": INT}}, "F127__FromInt": {"bound": {"a0": INT}},
}


class Opts(dict):
    def get(self, k, d=None):
        o = dict(DEFAULT)
        b = BITS.get(k, BITS.get(k.split("__")[0]))
        if b is not None:
            b = dict(b, modulo=BITS.get(k.split("__")[-1].rstrip("n"), {}).get("modulo") or b.get("modulo", 0), on=True)
            if any(m in ("Write", "Send", "ByteSize", "BitSize", "Equal", "Lsb") for m in k.split("__")):
                b["modulo"] = 0  # bytes and truth values, not elements
            o.update(bits=b, models=2500, tries=4000, least=1500)
        o.update(OPTS.get(k, OPTS.get(k.split("__")[0], {})))
        return o


MB = ["MultBatch__P1Sends", "MultBatch__PartiesReceive", "MultBatch__PartiesSend", "MultBatch__P1Receives"]
IG = ["InputGate__OwnerSendsP1", "InputGate__P1Receives", "InputGate__SetInput", "InputGate__SetLambda",
      "InputGate__GetValue", "InputGate__GetMu", "InputGate__GetOwner", "InputGate__ctor", "InputGate__SetNetwork"]
OG = ["OutputGate__P1SendsMu", "OutputGate__OwnerReceivesMu", "OutputGate__SetLambda", "OutputGate__GetValue",
      "OutputGate__GetMu", "OutputGate__GetOwner", "OutputGate__ctor", "OutputGate__SetNetwork"]
FISEND = ["Correlator__GenIndShrsPartiesSend", "Correlator__GenUnpackedShrPartiesSend",
          "Correlator__GenZeroPartiesSend", "Correlator__GenZeroForProdPartiesSend"]
FIRECV = ["Correlator__GenIndShrsPartiesReceive", "Correlator__GenUnpackedShrPartiesReceive",
          "Correlator__GenZeroPartiesReceive", "Correlator__GenZeroForProdPartiesReceive"]
PROD = ["Correlator__GenProdPartiesSendP1", "Correlator__GenProdP1ReceivesAndSends",
        "Correlator__GenProdPartiesReceive"]
FD = ["Correlator__PrepMultPartiesSendP1", "Correlator__PrepMultP1ReceivesAndSends",
      "Correlator__PrepMultPartiesReceive", "Correlator__PrepInputPartiesSendOwner",
      "Correlator__PrepInputOwnerReceives", "Correlator__PrepOutputPartiesSendOwner",
      "Correlator__PrepOutputOwnerReceives"]
POP = ["Correlator__PopulateIndvShrs__MultGate", "Correlator__PopulateIndvShrs__InputGate",
       "Correlator__PopulateIndvShrs__AddGate", "Correlator__PopulateIndvShrs__OutputGate",
       "Correlator__PopulateInputBatches", "Correlator__PopulateMultBatches", "Correlator__PopulateOutputBatches"]
CPH_ON = ["Circuit__InputOwnerSendsP1", "Circuit__InputP1Receives", "Circuit__MultP1Sends",
          "Circuit__MultPartiesReceive", "Circuit__MultPartiesSend", "Circuit__MultP1Receives",
          "Circuit__OutputP1SendsMu", "Circuit__OutputOwnerReceivesMu"]
CPH_OFF = ["Circuit__PrepMultPartiesSendP1", "Circuit__PrepMultP1ReceivesAndSends", "Circuit__PrepMultPartiesReceive",
           "Circuit__PrepIOPartiesSendOwner", "Circuit__PrepIOOwnerReceives"]
DNPRE = ["DN07__PrepPartiesSend", "DN07__PrepPartiesReceive", "DN07__FDMapPrepToGates",
         "DN07__FDMultPartiesSendP1", "DN07__FDMultP1Receives"]
DNON = ["DN07__InputPartiesSendOwners", "DN07__InputOwnersReceiveAndSendParties", "DN07__InputPartiesReceive",
        "DN07__MultPartiesSendP1", "DN07__MultP1Receives", "DN07__MultP1SendsParties", "DN07__MultPartiesReceive",
        "DN07__MultP1ReceivesAndSendsParties", "DN07__OutputPartiesSendOwners", "DN07__OutputOwnersReceive",
        "DN07__GetOutput", "DN07__SetInputs"]
def _all(prefix):
    return ("prefix", prefix)


PROPS = {}


def P(id, title, statement, over, qtext, why, files, mech, fns, level_note=None, observe=None, extra=(), specs=None):
    PROPS[id] = dict(specs=specs, id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                     mech=mech, fns=fns, note=level_note, observe=observe, extra=list(extra))


TESTS = ("The tests run a few fixed circuits with small batch sizes over an in-memory network in one process; "
         "they sample a handful of ")

P("C01", "Online multiplication opens the right value for every batch",
  "In the online multiplication of a batch, party 1 packs exactly the public differences (value minus mask) of the "
  "batch's left inputs and of its right inputs, in gate order, and gives every party its share of each; every party "
  "answers with the Beaver combination of those two shares and its own mask and correction shares of that same batch; "
  "and party 1 stores slot i of the reconstructed vector as the public difference of gate i, which is then readable.",
  ["inputs", "configurations"],
  "all batch sizes, party counts, party identities, wire values, mask shares and contents of received messages",
  TESTS + "batch sizes and constant masks, so an error that cancels for equal masks or small batches is invisible.",
  ["src/tp/mult_gate.h", "src/tp/mult_gate.cc"],
  [("packing and sending of left/right differences", "src/tp/mult_gate.cc P1Sends"),
   ("Beaver combination", "src/tp/mult_gate.cc PartiesSend"),
   ("reconstruction and delivery", "src/tp/mult_gate.cc P1Receives")],
  MB + ["MultBatch__RunProtocol", "MultBatch__SetPreprocessing", "MultBatch__SetNetwork", "MultBatch__ctor",
        "MultGate__GetMu", "Gate__GetLeft", "Gate__GetRight", "Gate__IsLearned", "MultBatch__GetMultGate"])

P("C02", "Inputs reach party 1 masked; outputs reach only their owner unmasked",
  "The owner of an input, and nobody else, sends party 1 its input minus the mask it holds for that input, and party 1 "
  "records what it received as that wire's public difference. For an output, party 1 sends the wire's public difference "
  "to the owner only, and the owner's result is that difference plus the mask it holds for that output. A value handed "
  "to a party that does not own the input is ignored.",
  ["inputs", "configurations"],
  "all owners, party identities, input values, masks and received messages",
  TESTS + "owners and mostly zero masks.",
  ["src/tp/input_gate.h", "src/tp/output_gate.h"],
  [("owner masks and sends", "src/tp/input_gate.h OwnerSendsP1"), ("party 1 records", "src/tp/input_gate.h P1Receives"),
   ("party 1 sends difference", "src/tp/output_gate.h P1SendsMu"),
   ("owner unmasks", "src/tp/output_gate.h OwnerReceivesMu")],
  IG + OG + ["Circuit__SetInputs", "Circuit__GetOutputs"])

P("C03", "Wire values are linear, computed once, and unreadable before they exist",
  "For each kind of wire value (public difference, mask, individual mask share, Shamir share, cleartext), an addition "
  "gate yields the sum of its parents' values, an output gate yields its parent's value, and a cleartext "
  "multiplication yields the product; the first result is remembered and returned again. Reading a wire value of an "
  "input or multiplication gate that was never set is rejected with an exception, and setting a value makes exactly "
  "that value readable.",
  ["inputs", "histories"],
  "all gate graphs, all values, all orders of set and get calls on a gate",
  TESTS + "gate graphs, and read most kinds of wire value only on one path.",
  ["src/tp/gate.h", "src/tp/input_gate.h", "src/tp/mult_gate.h", "src/tp/output_gate.h"],
  [("lazy getters with set-flags", "src/tp/gate.h AddGate, src/tp/output_gate.h OutputGate"),
   ("unset values rejected", "src/tp/input_gate.h, src/tp/mult_gate.h getters")],
  [_all("AddGate__"), _all("Gate__"), "InputGate__GetMu", "InputGate__GetDummyLambda", "InputGate__GetIndvShrLambda",
   "InputGate__GetDn07Share", "InputGate__GetClear", "InputGate__ClearInput", "InputGate__SetLambda",
   "InputGate__SetIndvShrLambda", _all("MultGate__"), "OutputGate__GetMu", "OutputGate__GetDummyLambda",
   "OutputGate__GetIndvShrLambda", "OutputGate__GetDn07Share", "OutputGate__GetClear", "OutputGate__SetLambda",
   "OutputGate__ctor", "InputGate__ctor", "InputGate__GetOwner", "OutputGate__GetOwner"])

P("C04", "Padding gates are inert",
  "Every wire value of a gate that only fills up a batch (public difference, mask, individual mask share, Shamir "
  "share, cleartext) is zero, such a gate is recognisable as padding, carries the owner of its batch, and consumes no "
  "correlated randomness.",
  ["inputs", "configurations"],
  "all circuits whose gate counts are not multiples of the batch size",
  TESTS + "partially filled batches, and never read most values of a padding gate.",
  ["src/tp/input_gate.h", "src/tp/mult_gate.h", "src/tp/output_gate.h", "src/tp/correlator.cc"],
  [("overrides returning zero", "src/tp/mult_gate.h PadMultGate, src/tp/input_gate.h PadInputGate, src/tp/output_gate.h PadOutputGate"),
   ("padding skipped when material is assigned", "src/tp/correlator.cc PopulateIndvShrs")],
  [_all("PadMultGate__"), _all("PadInputGate__"), _all("PadOutputGate__"), "Gate__IsPadding",
   "InputLayer__Close", "MultLayer__Close", "OutputLayer__Close",
   "Correlator__PopulateIndvShrs__MultGate", "Correlator__PopulateIndvShrs__InputGate"])

P("C05", "Batches hold at most k gates of one owner and are padded to exactly k",
  "A batch accepts a gate only while it has fewer than k gates and, for inputs and outputs, only if the gate belongs to "
  "the batch's owner; otherwise it throws. A layer puts a new gate into its last batch and opens a new batch exactly when "
  "the last one is full, so gates keep their order; closing a layer fills its last batch with padding up to exactly k, "
  "and per-batch operations of a layer reach each of its batches exactly once.",
  ["inputs", "histories"],
  "all batch sizes and all sequences of appended gates",
  TESTS + "batch sizes and append sequences.",
  ["src/tp/input_gate.h", "src/tp/mult_gate.h", "src/tp/output_gate.h"],
  [("capacity and owner checks", "Append of InputBatch, MultBatch, OutputBatch"),
   ("layers", "Append and Close of InputLayer, MultLayer, OutputLayer")],
  [n for c in ("Input", "Mult", "Output") for n in (
      c + "Batch__Append", c + "Batch__HasRoom", c + "Batch__ctor", c + "Layer__Append", c + "Layer__Close",
      c + "Layer__ctor", c + "Layer__GetSize", c + "Layer__SetNetwork", c + "Batch__SetNetwork",
      c + "Batch__Get%sGate" % c, c + "Layer__Get%sBatch" % c, c + "Layer__ClearEvaluation",
      c + "Layer__PrepFromDummyLambdas")] +
  ["InputBatch__GetOwner", "OutputBatch__GetOwner", "InputBatch__GetClear", "MultBatch__GetClear",
   "OutputBatch__GetClear", "InputLayer___DummyPrep__1", "MultLayer___DummyPrep__3", "OutputLayer___DummyPrep__1",
   "MultLayer__P1Sends", "MultLayer__PartiesReceive", "MultLayer__PartiesSend", "MultLayer__P1Receives"])

P("C06", "Circuit construction keeps every gate and its metrics consistent",
  "Each gate a builder adds is recorded once in the flat list and once in the layer of its owner (inputs, outputs) or "
  "current depth (multiplications), with the parents it was given; starting a new layer closes the current one; and "
  "the reported depth, width, size, input, output and batch counts equal what was built. A synthetic circuit has exactly "
  "the configured shape, a configuration that does not fit is rejected, and a network can be attached only to a closed "
  "circuit, reaching every layer.",
  ["inputs", "programs"],
  "all sequences of building operations and all configurations",
  TESTS + "circuits and one or two configurations.",
  ["src/tp/circuits.h", "src/tp/circuits/building.cc", "src/tp/circuits/generic.cc"],
  [("builders", "src/tp/circuits/building.cc"), ("configuration checks", "src/tp/circuits/generic.cc FromConfig"),
   ("metrics", "src/tp/circuits.h Get*")],
  ["Circuit__Init", "Circuit__ctor__2", "Circuit__Input", "Circuit__Output", "Circuit__Add", "Circuit__Mult",
   "Circuit__NewLayer", "Circuit__LastLayer", "Circuit__CloseInputs", "Circuit__CloseOutputs", "Circuit__SetNetwork",
   "Circuit__GetInputGate__2", "Circuit__GetInputGate__1", "Circuit__GetOutputGate__2", "Circuit__GetOutputGate__1",
   "Circuit__GetMultGate", "Circuit__GetDepth", "Circuit__GetNInputs", "Circuit__GetNOutputs", "Circuit__GetWidth",
   "Circuit__GetSize", "Circuit__GetNInputBatches", "Circuit__GetNOutputBatches", "Circuit__GetNMultBatches",
   _all("CircuitConfig__"), "Circuit__FromConfig", "AddGate__ctor", "MultGate__ctor", "OutputGate__ctor",
   "InputGate__ctor"])

P("C07", "Every protocol phase covers the whole circuit exactly once, in order",
  "Each circuit-wide phase (input, multiplication of one layer, output, circuit-dependent preprocessing, assignment of "
  "correlated randomness) invokes the corresponding step on every gate or batch it concerns exactly once, in the same "
  "order on every party, and the complete protocol runs inputs, then the layers from first to last, then outputs.",
  ["configurations", "inputs"],
  "all circuits: any number of clients, layers, batches and gates",
  TESTS + "circuit shapes, in which skipping the last client, layer or batch may go unnoticed.",
  ["src/tp/circuits/online.cc", "src/tp/circuits/offline.cc", "src/tp/circuits.h"],
  [("online traversal", "src/tp/circuits/online.cc"), ("preprocessing traversal", "src/tp/circuits/offline.cc")],
  CPH_ON + CPH_OFF + ["Circuit__RunInput", "Circuit__RunMult", "Circuit__RunOutput", "Circuit__RunProtocol",
                      "Circuit__MapCorrToCircuit", "Circuit__FIPrepSend", "Circuit__FIPrepRecv",
                      "Circuit__GenIndShrsPartiesSend", "Circuit__GenIndShrsPartiesReceive",
                      "Circuit__GenUnpackedShrPartiesSend", "Circuit__GenUnpackedShrPartiesReceive",
                      "Circuit__GenZeroPartiesSend", "Circuit__GenZeroPartiesReceive",
                      "Circuit__GenZeroForProdPartiesSend", "Circuit__GenZeroForProdPartiesReceive",
                      "Circuit__GenProdPartiesSendP1", "Circuit__GenProdP1ReceivesAndSends",
                      "Circuit__GenProdPartiesReceive", "MultLayer__P1Sends", "MultLayer__PartiesReceive",
                      "MultLayer__PartiesSend", "MultLayer__P1Receives", "MultBatch__RunProtocol"])

P("C08", "Dealers use fresh randomness, the right degree and the right points",
  "In function-independent preprocessing every party deals, for each block it must contribute, one fresh sharing: an "
  "individual mask share hides one uniform value in all k slots with degree n-k, an unpacked share hides a uniform value "
  "at the point of its slot with degree t, a zero sharing hides zeros with degree n-1 (at all k slots, or at the slot of "
  "a product), and party i always receives the evaluation at party i's point. No dealt polynomial is reused.",
  ["configurations", "inputs"],
  "all party counts, thresholds, batch sizes and amounts of material",
  TESTS + "parameters; randomness and degree errors still reconstruct correctly and are invisible to them.",
  ["src/tp/fi_prep.cc"],
  [("dealing", "src/tp/fi_prep.cc GenIndShrsPartiesSend, GenUnpackedShrPartiesSend, GenZeroPartiesSend, GenZeroForProdPartiesSend")],
  FISEND)

P("C09", "Extraction turns the dealt sharings into the required amount of material",
  "From each block of n received sharings the parties derive t+1 sharings as the fixed linear combinations given by the "
  "extraction matrix (entry i,j is i to the power j), in the same order on every party, and store them under consecutive "
  "positions: first masks, then for each of the k slots the two factors and the mask of products, and the zero sharings for the first, second "
  "and third correction of each multiplication batch before those for input and output batches.",
  ["configurations", "inputs"],
  "all party counts, thresholds, batch sizes, amounts of material and received messages",
  TESTS + "amounts of material; a swapped or shared index still gives plausible shares.",
  ["src/tp/fi_prep.cc", "src/tp/correlator.cc", "src/tp/correlator.h"],
  [("extraction", "src/tp/fi_prep.cc Gen*PartiesReceive"),
   ("matrix", "src/tp/correlator.cc PrecomputeVandermonde"), ("packing coefficients", "src/tp/correlator.cc PrecomputeEi")],
  FIRECV + ["Correlator__PrecomputeVandermonde", "Correlator__PrecomputeEi"])

P("C10", "Triple products are opened masked and reshared consistently",
  "For every slot and batch, each party sends party 1 its share of the product of that slot's two factors plus that "
  "product's own mask share and zero share; party 1 interpolates the masked product at the slot's point and returns a "
  "degree-t sharing of it in which the first t parties' shares are fixed to zero; every party subtracts its share of the "
  "same mask and adds the result, weighted with that slot's packing coefficient, to the third component of that batch's triple.",
  ["configurations", "inputs"],
  "all party counts, thresholds, batch sizes, numbers of batches and received messages",
  TESTS + "parameters.",
  ["src/tp/fi_prep.cc"],
  [("masked product", "src/tp/fi_prep.cc GenProdPartiesSendP1"),
   ("open and reshare", "src/tp/fi_prep.cc GenProdP1ReceivesAndSends"),
   ("unmask and pack", "src/tp/fi_prep.cc GenProdPartiesReceive")],
  PROD + ["Correlator__PrecomputeEi"])

P("C11", "Every piece of correlated randomness is assigned to exactly one place",
  "Each non-padding input and multiplication gate gets its own individual mask share, additions get the sum of their "
  "parents' and outputs their parent's, each batch gets its own triple and zero sharings, and no piece is given out twice; the "
  "amounts generated equal the amounts the circuit consumes.",
  ["programs", "configurations"],
  "all circuits and batch sizes",
  TESTS + "circuits with constant dummy material, for which reuse makes no difference.",
  ["src/tp/correlator.cc", "src/tp/circuits/offline.cc"],
  [("assignment with running counters", "src/tp/correlator.cc Populate*"),
   ("amounts", "src/tp/circuits/offline.cc GenCorrelator"), ("order", "src/tp/circuits/offline.cc MapCorrToCircuit")],
  POP + ["Circuit__MapCorrToCircuit", "Circuit__GenCorrelator", "Correlator__ctor", "Circuit__GetNMultBatches",
         "Circuit__GetNInputBatches", "Circuit__GetNOutputBatches", "Circuit__GetNInputs", "Circuit__GetSize",
         "Circuit__Mult"])

P("C12", "Circuit-dependent preprocessing delivers each batch's masks and corrections",
  "For each multiplication batch every party sends party 1 its packed shares of the k left and the k right masks, each "
  "hidden by the batch's own random factor and zero sharing; party 1 opens both and reshares them with degree k-1, and each "
  "party stores in that same batch its shares of left mask, right mask and correction, derived from what it received, the "
  "batch's own triple, third zero sharing and output masks. For each input and output batch the "
  "owner reconstructs the k masks from all parties' shares, protected by the batch's own zero sharing, and sets slot i on gate i.",
  ["configurations", "inputs", "programs"],
  "all circuits, batch sizes, party counts and received messages",
  TESTS + "circuits, mostly with constant masks.",
  ["src/tp/correlator.cc"],
  [("multiplication batches", "src/tp/correlator.cc PrepMult*"), ("input and output batches", "src/tp/correlator.cc PrepInput*, PrepOutput*")],
  FD + ["Correlator__PrecomputeEi", "MultBatch__SetPreprocessing", "InputGate__SetLambda", "OutputGate__SetLambda"])

SK = {"sendskel", "recvskel", "throws"}
P("C13", "Every message sent is expected, in order and type, by its receiver",
  "For every phase and every ordered pair of parties, the sequence of messages the sender puts on the channel has the same length "
  "and element types as the sequence the receiver takes from it in the matching phase, whatever the parties' roles; no phase leaves a "
  "message unread or waits for one that is never sent.",
  ["configurations", "schedules"],
  "all circuits, party counts, thresholds, batch sizes and roles",
  TESTS + "configurations; a missing or extra message shows only as a hang or shifted stream under other parameters.",
  ["src/tp/fi_prep.cc", "src/tp/correlator.cc", "src/tp/dn07.cc", "src/tp/mult_gate.cc", "src/tp/input_gate.h", "src/tp/output_gate.h"],
  [("paired send and receive phases", "src/tp/fi_prep.cc, src/tp/correlator.cc, src/tp/dn07.cc, src/tp/mult_gate.cc")],
  [(n, SK) for n in FISEND + FIRECV + PROD + FD + MB + DNPRE + DNON +
   ["InputGate__OwnerSendsP1", "InputGate__P1Receives", "OutputGate__P1SendsMu", "OutputGate__OwnerReceivesMu"]] +
  [(n, {"call", "throws"}) for n in CPH_ON + CPH_OFF])

MASK = {"send", "sendskel", "throws"}
P("C14", "Nothing secret leaves a party unmasked",
  "Every field element a party sends in preprocessing or online is a share of a fresh random or zero sharing, a "
  "public value, or a secret-dependent share to which a mask share reserved for that one message (or a zero sharing reserved for that "
  "batch) has been added; masks are never sent in the clear and are sent only to the party entitled to them.",
  ["configurations", "inputs"],
  "all secrets, randomness, parameters and roles",
  TESTS + "outputs; a missing mask changes no output.",
  ["src/tp/fi_prep.cc", "src/tp/correlator.cc", "src/tp/dn07.cc", "src/tp/mult_gate.cc", "src/tp/input_gate.h", "src/tp/output_gate.h"],
  [("masked openings", "src/tp/fi_prep.cc GenProdPartiesSendP1, src/tp/correlator.cc Prep*Send*, src/tp/dn07.cc")],
  [(n, MASK) for n in FISEND + PROD + FD + MB + DNPRE + DNON +
   ["InputGate__OwnerSendsP1", "OutputGate__P1SendsMu"]] + POP + ["Circuit__MapCorrToCircuit"])

P("C15", "The baseline protocol's preprocessing yields matching, once-used sharings",
  "In the baseline honest-majority protocol every party deals uniform values shared with degree t, and double sharings of the same uniform "
  "value with degrees t and 2t; each party extracts t+1 sharings per block with the same matrix, assigns a distinct random sharing to each "
  "input and a distinct double sharing to each multiplication gate, and in the circuit-dependent step exactly the parties outside the first t+1 send party 1 "
  "the product of their input shares minus the double share of that gate.",
  ["configurations", "inputs"],
  "all party counts, thresholds, circuits and received messages",
  TESTS + "parameters.",
  ["src/tp/dn07.cc", "src/tp/dn07.h"],
  [("dealing and extraction", "src/tp/dn07.cc Prep*"), ("assignment", "src/tp/dn07.cc FDMapPrepToGates"),
   ("circuit-dependent step", "src/tp/dn07.cc FDMult*")],
  DNPRE + ["DN07__ctor", "DN07__PrecomputeVandermonde", "DN07__SetCircuit", "DN07__DummyPrep__0", "DN07__DummyPrep__1",
           "DoubleShr__ctor__2", "DoubleShr__ctor__1", "DoubleShr__ctor__0", "RandShr__ctor__1", "RandShr__ctor__0"])

P("C16", "The baseline protocol computes and delivers the right shares online",
  "In the baseline protocol an input owner learns its mask from the first t+1 parties and sends them a degree-t sharing of input minus mask "
  "whose last t shares are zero, to which each party adds its mask share; for a multiplication party 1 combines the masked products of the first "
  "t+1 parties with those sent earlier by the rest, reshares the result with the last t shares zero, and every party adds its mask share; each "
  "output owner reconstructs from the first t+1 parties' shares. Every gate of the layer or owner concerned is served exactly once, in order.",
  ["configurations", "inputs"],
  "all party counts, thresholds, circuits, inputs and received messages",
  TESTS + "parameters.",
  ["src/tp/dn07.cc", "src/tp/dn07.h"],
  [("input", "src/tp/dn07.cc Input*"), ("multiplication", "src/tp/dn07.cc Mult*"), ("output", "src/tp/dn07.cc Output*")],
  DNON + ["DN07__ctor", "DN07__FDMultPartiesSendP1", "DN07__FDMultP1Receives", "DN07__SetCircuit"])

P("C17", "Parameters that break the protocol's relations are rejected",
  "A threshold is accepted only if t < n/2 and, for the packed protocol, n = t + 2(k-1) + 1; the baseline protocol accepts only t < n/2; and "
  "preprocessing amounts cannot be derived before a network is attached, nor a network attached before the circuit is closed. Anything else throws before any state is used.",
  ["configurations"],
  "all n, t, k and orders of setup calls",
  TESTS + "valid parameter sets.",
  ["src/tp/correlator.h", "src/tp/dn07.h", "src/tp/circuits/offline.cc", "src/tp/circuits.h"],
  [("threshold checks", "src/tp/correlator.h SetThreshold, src/tp/dn07.h constructor"),
   ("setup order", "src/tp/circuits/offline.cc GenCorrelator, src/tp/circuits/building.cc SetNetwork")],
  ["Correlator__SetThreshold", "Circuit__SetThreshold", "DN07__ctor", "Circuit__GenCorrelator", "Circuit__SetNetwork",
   "Correlator__SetNetwork", "Correlator__ctor"])

P("C18", "Inputs and results are routed to the right owner and position",
  "Setting inputs assigns the j-th supplied value of a client (or of the flat list, in client order) to that client's j-th input gate and rejects "
  "lists of the wrong shape; reading outputs returns, for each client or in creation order, the value of exactly that output gate. Both hold for cleartext evaluation, the packed protocol and the baseline protocol.",
  ["inputs", "configurations"],
  "all numbers of clients, inputs and outputs per client, and all supplied values",
  TESTS + "client/input combinations.",
  ["src/tp/circuits/cleartext.cc", "src/tp/circuits/online.cc", "src/tp/dn07.cc"],
  [("clear inputs and outputs", "src/tp/circuits/cleartext.cc"), ("protocol inputs and outputs", "src/tp/circuits/online.cc SetInputs, GetOutputs")],
  ["Circuit__SetClearInputs", "Circuit__SetClearInputsFlat", "Circuit__GetClearOutputs", "Circuit__GetClearOutputsFlat",
   "Circuit__SetInputs", "Circuit__GetOutputs", "DN07__SetInputs", "DN07__GetOutput", "DN07__OutputOwnersReceive", "InputGate__ClearInput",
   "InputGate__SetInput", "InputGate__GetClear", "OutputGate__GetClear", "OutputGate__GetValue", "MultGate__GetClear",
   "AddGate__GetClear", "InputGate__GetValue"])

P("C19", "Simulated preprocessing is consistent with real preprocessing",
  "Preprocessing simulated from known masks gives every party, for each batch, its own packed share of the batch's masks (for multiplications: of the left masks, the right masks and "
  "left times right minus output mask) evaluated at that party's point with degree k-1, sets the chosen mask on exactly the inputs and multiplications, derives all other masks from the circuit, and "
  "fills the correlated-randomness store with the required amount of constant material.",
  ["inputs", "configurations"],
  "all circuits, masks, batch sizes and party identities",
  TESTS + "constant masks, for which every party's share is the same.",
  ["src/tp/circuits/offline.cc", "src/tp/mult_gate.h", "src/tp/input_gate.h", "src/tp/output_gate.h", "src/tp/correlator.h"],
  [("circuit-wide simulation", "src/tp/circuits/offline.cc"), ("per batch", "PrepFromDummyLambdas and _DummyPrep of the batches")],
  ["Circuit___DummyPrep__0", "Circuit___DummyPrep__1", "Circuit__PopulateDummyLambdas", "Circuit__SetDummyLambdas",
   "Circuit__PrepFromDummyLambdas", "Circuit__GenIOBatchDummy", "Circuit__GenIndShrsDummy", "Circuit__GenMultBatchDummy",
   "Circuit__PopulateDummyCorrelator__0", "Circuit__PopulateDummyCorrelator__1", "Correlator__GenPrepDummy__0",
   "Correlator__GenPrepDummy__1", "Correlator__GenIndShrsDummy", "Correlator__GenMultBatchDummy", "Correlator__GenIOBatchDummy",
   "MultBatch__PrepFromDummyLambdas", "InputBatch__PrepFromDummyLambdas", "OutputBatch__PrepFromDummyLambdas",
   "MultBatch___DummyPrep__0", "MultBatch___DummyPrep__3", "InputBatch___DummyPrep__0", "InputBatch___DummyPrep__1",
   "OutputBatch___DummyPrep__0", "OutputBatch___DummyPrep__1", "InputGate___DummyPrep__0", "OutputGate___DummyPrep__0",
   "InputGate___DummyPrep", "OutputGate___DummyPrep", "InputBatch__SetPreprocessing", "OutputBatch__SetPreprocessing",
   "InputBatch__GetPackedShrLambda", "OutputBatch__GetPackedShrLambda", "Gate___SetDummyMu",
   "MultBatchFIPrep__ctor__0", "MultBatchFIPrep__ctor__1", "IOBatchFIPrep__ctor__0"])

LIB = "secure-computation-library/include/scl/"

P("C20", "Packed sharing puts every secret at its own point",
  "A packed sharing of secrets s_0..s_(m-1) of degree d is the polynomial through (-i, s_i) and through (1, r_1), (2, r_2), ... with exactly d+1-m fresh, independently drawn values r_j; a single secret sits at the "
  "requested point, and explicitly given points carry the secrets first and fresh values after. More secrets than points are rejected. Share j (from 1) is the value of that polynomial at j.",
  ["inputs", "configurations"], "all secrets, degrees, point lists and numbers of shares",
  "The tests share three constants with one degree and look only at the reconstructed secrets.",
  [LIB + "ss/packed.h", LIB + "ss/evpoly.h"],
  [("sharing", LIB + "ss/packed.h EvPolyFromSecrets*"), ("share generation", LIB + "ss/packed.h SharesFromEvPoly")],
  ["PK__EvPolyFromSecretsAndPoints", "PK__EvPolyFromSecretsAndDegree", "PK__EvPolyFromSecretAndPointAndDegree",
   "PK__EvPolyFromSecretAndDegree", "PK__SharesFromEvPoly", "EVP__ctor__xy"], specs=["ss"])

P("C21", "Packed reconstruction interpolates all shares at the right points",
  "Reconstruction treats the i-th share (from 0) as the value at i+1, interpolates through all of them, and evaluates at 0, -1, ..., at given points, or at 0. A polynomial in evaluation form evaluates to its unique Lagrange "
  "interpolation; its degree is one less than its number of points; sums and differences are pointwise and demand equal points; malformed point lists are rejected.",
  ["inputs", "configurations"], "all share vectors, points and lengths",
  "The tests evaluate polynomials with at most a dozen fixed points.",
  [LIB + "ss/packed.h", LIB + "ss/evpoly.h"],
  [("reconstruction", LIB + "ss/packed.h Secret(s)From*"), ("interpolation", LIB + "ss/evpoly.h Evaluate")],
  ["PK__EvPolyFromShares", "PK__SecretsFromPointsAndShares", "PK__SecretsFromSharesAndLength", "PK__SecretFromPointAndShares",
   "PK__SecretFromShares", _all("EVP__")], specs=["ss"])

P("C22", "Shamir sharing has the right degree; reconstruction detects errors",
  "A Shamir sharing with threshold t is a polynomial with the secret as constant term and t fresh random coefficients, evaluated at 1..n (or at given points); threshold 0 is rejected. Passive reconstruction interpolates the first t+1 shares at the "
  "given position. Detecting reconstruction demands 2t+1 shares and points, accepts exactly when all of the first 2t+1 shares lie on the polynomial through the first t+1, and otherwise throws.",
  ["inputs", "configurations", "fault_sequences"], "all secrets, thresholds, share vectors (honest or corrupted), points and positions",
  "The tests corrupt one fixed share at one threshold.",
  [LIB + "ss/shamir.h"],
  [("sharing", LIB + "ss/shamir.h CreateShamirShares"), ("passive reconstruction", LIB + "ss/shamir.h ReconstructShamirPassive"),
   ("error detection", LIB + "ss/shamir.h ReconstructShamir")],
  [_all("SH__"), "SCL__CreateShamirShares__p", "SCL__CreateShamirShares__s", "SCL__CanonicalAlphas",
   "SCL__ReconstructShamirPassive__4", "SCL__ReconstructShamirPassive__2", "SCL__ReconstructShamir__4",
   "SCL__ReconstructShamir__2"], specs=["ss"])

P("C23", "Additive shares are fresh randomness and sum to the secret",
  "An additive sharing among n parties consists of n-1 freshly drawn random values and one value that makes the sum of all n equal the secret; n = 0 is rejected; reconstruction returns the sum of all shares.",
  ["inputs", "configurations"], "all secrets, n and share vectors",
  "The tests share one constant among ten parties.",
  [LIB + "ss/additive.h"], [("sharing and reconstruction", LIB + "ss/additive.h")],
  ["SCL__CreateAdditiveShares", "SCL__ReconstructAdditive"], specs=["ss"])

P("C24", "Polynomial arithmetic",
  "Polynomials in coefficient form add, subtract and multiply coefficient-wise by the textbook rules; division yields the quotient and remainder of long division and rejects the zero polynomial; evaluation at x yields the sum of c_i x^i; a polynomial never keeps "
  "leading zero coefficients, so its degree is the index of its last non-zero coefficient (0 for the zero polynomial).",
  ["inputs"], "all polynomials and points",
  "The tests use polynomials of degree at most three over a field with seven elements.",
  [LIB + "ss/poly.h"], [("arithmetic", LIB + "ss/poly.h"), ("normalisation", LIB + "ss/poly.h Create")],
  [_all("POLY__")], specs=["math"])

P("C25", "Vector operations are elementwise and refuse mismatched lengths",
  "Elementwise sum, difference and product, inner product, sum, scaling and equality of vectors have their textbook meaning for every length, the in-place forms change only the receiver and return it, random vectors draw one element per position, operands of different length are rejected before anything is written, and the results are the same when the operand is the receiver itself or the factor is one of its elements.",
  ["inputs"], "all vectors, also empty ones, and all pairs of lengths",
  "The tests use vectors of two or three elements.",
  [LIB + "math/vec.h"], [("elementwise operations", LIB + "math/vec.h"), ("length check", LIB + "math/vec.h EnsureCompatible")],
  [_all("VEC__"), "AL__VecAddOwn", "AL__VecSubtractOwn", "AL__VecMultiplyOwn", "AL__VecScaleByOwn"], specs=["math", "alias"])

P("C26", "Matrix operations match linear algebra and refuse wrong dimensions",
  "Matrix sums, differences, entrywise products, scaling, matrix products, transposes, identity, comparison and reshaping have their textbook meaning on row-major storage for every shape; empty dimensions and operands of incompatible shape are rejected, and the in-place forms give the same results when the operand is the receiver itself or the factor is one of its entries.",
  ["inputs"], "all shapes and entries",
  "The tests use 2x2 and 2x3 matrices.",
  [LIB + "math/mat.h"], [("entrywise operations", LIB + "math/mat.h"), ("product and transpose", LIB + "math/mat.h Multiply, Transpose")],
  [_all("MAT__"), "AL__MatAddOwn", "AL__MatSubtractOwn", "AL__MatMultiplyOwn", "AL__MatScaleByOwn"], specs=["math", "alias"])

P("C27", "Row reduction, and solving of square linear systems",
  "Row swaps, row scaling and adding a multiple of one row to another change exactly the rows named, also when the factor is an entry of such a row; row reduction brings any matrix to its (unique) reduced row echelon form; augmenting appends columns; a square system is reported solvable exactly when its matrix is regular, the solution then satisfies it, and a right-hand side of the wrong length is rejected.",
  ["inputs"], "all matrices, right-hand sides, row indices and factors",
  "The tests reduce a handful of small matrices.",
  [LIB + "math/la.h"], [("row operations", LIB + "math/la.h SwapRows, MultiplyRow, AddRows"), ("reduction", LIB + "math/la.h RowReduceInPlace"),
   ("solving", LIB + "math/la.h SolveLinearSystem")],
  [_all("LA__"), "AL__RowScaleByOwn", "AL__RowAddByOwn"], specs=["math", "alias"])

MACH = ["unsigned machine arithmetic wraps at the width of its type; the target is little-endian",
        "a field element in memory is already reduced (established by the same obligations)",
        "the reference functions in spec/*.cc state the intended behaviour"]
ARITH = ["op_addeq", "op_subeq", "op_muleq", "op_diveq", "Negate", "Negated", "Invert", "Inverse", "Equal"]
RINGOPS = ["op_add__%s", "op_sub__%s", "op_sub__%sn", "op_mul__%s", "op_div__%s", "op_eq__%s", "op_ne__%s"]


OWN = ["Add", "Subtract", "Multiply", "Divide"]
WIDTHS = ["ZD", "ZE", "ZF", "ZG", "ZH", "ZI"]


def _ring(*cs):
    return ["%s__%s" % (c, a) for c in cs for a in ARITH] + ["RING__" + o % c for c in cs for o in RINGOPS]


P("C28", "Arithmetic modulo 2^61-1 and 2^127-1 is exact and stays reduced",
  "For all operands in [0, p), sum, difference, product, negation, inverse and quotient of field elements are the exact results modulo p = 2^61-1 and p = 2^127-1, again in [0, p); equality is equality of residues; inverting zero is rejected; every int converts to its residue; "
  "the in-place operators change the receiver only and return it, and are right also when the operand is the receiver itself.",
  ["inputs"], "all pairs of operands, including 0, 1, p-1 and operands whose double-width product carries across the halves",
  "The tests multiply a few constants; the carry and final-subtraction cases are hit by a tiny fraction of operands.",
  ["secure-computation-library/src/scl/math/fields", LIB + "math/ff.h", LIB + "math/ring.h"],
  [("61-bit arithmetic", "secure-computation-library/src/scl/math/fields/mersenne61.cc"),
   ("127-bit arithmetic", "secure-computation-library/src/scl/math/fields/mersenne127.cc"),
   ("element operators", LIB + "math/ff.h, ring.h")],
  ["%s__%s" % (f, m) for f in ("F61", "F127") for m in ("Add", "Subtract", "Negate", "Multiply", "Invert", "Equal", "FromInt")] +
  _ring("FA", "FB") + ["AB__%sOwn__%s" % (o, f) for o in OWN for f in ("FA", "FB")], specs=["field", "ring", "ring2"])

P("C29", "Arithmetic of the ring of integers modulo 2^K",
  "For every K (instantiated with 1, 8, 32, 44, 62, 64, 90, 123 and 128: within, at and across the machine word, multiples of eight and not), sum, difference, product, negation and, of odd elements, inverse and quotient are the exact results modulo 2^K; equality compares residues modulo 2^K only; even elements have no inverse and are rejected; Lsb is the residue modulo 2; an operand may be the receiver itself.",
  ["inputs", "configurations"], "all operands (also representations with bits above K) and all bit widths",
  "The tests sample a few random elements per width.",
  [LIB + "math/z2k.h", LIB + "math/z2k"], [("representation", LIB + "math/z2k.h"), ("operations", LIB + "math/z2k/details.h")],
  _ring("ZA", "ZB", "ZC") + ["%s__Lsb" % z for z in ("ZA", "ZB", "ZC")] + ["AB__%sOwn__%s" % (o, z) for o in OWN for z in ("ZB", "ZC")] +
  ["%s__%s" % (z, m) for z in WIDTHS for m in ("op_addeq", "op_subeq", "op_muleq", "op_diveq", "Invert", "Inverse", "Equal")], specs=["ring", "ring2"])

P("C30", "Elements map to bytes and back, and are read from strings, exactly",
  "Writing an element stores its value little-endian in exactly ByteSize bytes, ByteSize being the least number of bytes that hold BitSize bits (for fields: the word size); reading takes exactly that many bytes and reduces them, so reading what was written gives the element back; a random element is read from ByteSize fresh generator bytes; "
  "binary, decimal, hexadecimal and base64 strings are read as big-endian digits (base64: three bytes per group of four, the last group padded with one or two '='), and other characters, wrong padding, hexadecimal strings of odd length and base64 strings whose length is no multiple of four are rejected.",
  ["inputs"], "all elements, all byte strings and all strings",
  "The tests round-trip a few elements and parse a few constants.",
  [LIB + "math/ff.h", LIB + "math/z2k.h", LIB + "math/str.h", "secure-computation-library/src/scl/math"],
  [("field elements", "secure-computation-library/src/scl/math/fields FromBytes, ToBytes; " + LIB + "math/ff.h Read, Write, Random"),
   ("ring elements", LIB + "math/z2k/details.h ReadZ2k, WriteZ2k"), ("strings", LIB + "math/str.h FromStringBinary, FromStringDecimal, FromStringHex, FromStringBase64")],
  ["%s__%s" % (c, m) for c in ["FA", "FB", "ZA", "ZB", "ZC"] + WIDTHS for m in ("Read", "Write", "Random", "ByteSize", "BitSize")] +
  ["F61__FromBytes", "F61__ToBytes", "F127__FromBytes", "F127__ToBytes", _all("STR__")], specs=["field", "ring", "ring2"])

P("C31", "Hashing is SHA-3 of the bytes absorbed, however they are split",
  "The permutation is Keccak-f[1600] of FIPS 202, absorbing any sequence of bytes leaves the sponge in the state that absorbing them one at a time does (so the digest does not depend on how the message is split over calls), finalising pads as SHA-3 demands and squeezes the digest little-endian, for digests of 256, 384 and 512 bits; a new hash starts from the zero state.",
  ["inputs", "histories"], "all sponge states, positions within a word and within the rate, and all byte strings up to 40 bytes per call",
  "The tests hash a few messages, none of which crosses a word or rate boundary in the middle of a call at every offset.",
  [LIB + "hash.h", "secure-computation-library/src/scl/hash.cc"],
  [("permutation", "secure-computation-library/src/scl/hash.cc Keccakf"), ("sponge", LIB + "hash.h Update, Finalize")],
  [_all("SHA__"), _all("HA__"), _all("HB__"), _all("HC__")], specs=["hash"])

P("C32", "The generator is AES-128 in counter mode",
  "The key schedule is that of FIPS 197 for the seed; block i of the output is the encryption of the counter plus i under all ten rounds, output of any length is a prefix of that stream, exactly the bytes asked for are written, and the counter advances by the number of blocks started, so no block is used twice; a reset returns to the start of the same stream; two generators with one seed agree, and asking for more bytes than the destination holds is rejected.",
  ["inputs", "histories"], "all seeds, counters and lengths up to 40 bytes (lengths enter the terms symbolically; interpretation samples up to 40)",
  "The tests compare a few generators with each other and one output block.",
  [LIB + "prg.h", "secure-computation-library/src/scl/prg.cc"],
  [("key schedule", "secure-computation-library/src/scl/prg.cc Init"), ("counter mode", "secure-computation-library/src/scl/prg.cc Next")],
  [_all("PG__")], specs=["prg"])

P("C33", "Vectors, matrices and plain values cross a channel unchanged",
  "A vector or matrix is written as its elements in order (row-major), ByteSize bytes each, and read back from the same layout; random matrices are read from that many generator bytes. Sending a vector transmits its length in four bytes and then those bytes, sending a matrix its row count, its column count and then those bytes, and a trivially copyable value or std::vector its memory; "
  "receiving takes exactly as many bytes as the matching send produced and rebuilds the value, and announced sizes beyond the limit (a matrix: rows times columns, in full width) are rejected before anything is allocated or read.",
  ["inputs"], "all values, lengths and shapes, and all announced sizes, over elements of 1, 6, 8 and 16 bytes (the first two wider in memory)",
  "The tests exchange a handful of small vectors and matrices and one oversized announcement.",
  [LIB + "net/channel.h", LIB + "math/vec.h", LIB + "math/mat.h"],
  [("framing", LIB + "net/channel.h Send, Recv"), ("byte layout", LIB + "math/vec.h, mat.h Read, Write, ByteSize")],
  [_all(p) for p in ("VB__", "MB__", "VG__", "MG__", "VH__", "MH__", "VI__", "MI__", "CH__")], specs=["serial", "serial2"])

P("C34", "A TCP channel delivers every byte or reports failure",
  "Sending n bytes over a TCP channel hands exactly those n bytes, in order, to the socket, whatever partial writes the socket makes; receiving n bytes fills the buffer with the next n bytes of the stream, whatever partial reads occur. An error of the socket, and a connection that ends before n bytes arrived, are reported by an exception instead of a short or stale buffer. A channel with a sender thread queues a copy of exactly the bytes it was given and receives from the channel it wraps.",
  ["inputs", "fault_sequences"], "all lengths, all sequences of partial transfers, errors and closings",
  "Loopback sockets in the tests never transfer partially, fail or close early.",
  [LIB + "net/tcp_channel.h", "secure-computation-library/src/scl/net"],
  [("transfers", LIB + "net/tcp_channel.h Send, Recv"), ("decoupled sending", "secure-computation-library/src/scl/net/threaded_sender.cc Send, Recv")], [_all("TCP__"), _all("TS__")], specs=["net"])

P("C35", "An in-memory channel is a FIFO stream of bytes",
  "An in-memory channel delivers the bytes sent by the other end in order, without loss, duplication or reordering, however the sends and receives are cut into pieces: a receive consumes messages until it has enough bytes, blocks while there are too few, and keeps the rest for the next receive.",
  ["inputs", "histories"], "all sequences of message lengths and receive lengths",
  "The tests receive in the same pieces as were sent, or in two.",
  [LIB + "net/mem_channel.h", "secure-computation-library/src/scl/net"],
  [("buffering", LIB + "net/mem_channel.h, src/scl/net/mem_channel.cc Send, Recv")], [_all("IMC__")], specs=["net"])

P("C36", "Networks wire every pair of parties together",
  "Every way of building a network gives party i one channel per party: for j the other end of the very channel party j has for i, so what i sends to j is what j receives from i and nothing crosses pairs; the channel to itself loops back. Building a TCP network, each pair makes exactly one connection: a party accepts from the higher ids on its own port and connects to every lower id at the address and port configured for that id, the connecting party announces its id first, and the accepting party files the connection under that id; "
  "an announcement of an id that is not awaited is dropped rather than stored. Party, Size, and Close address exactly those channels, and the in-memory mock pairs each party with its remote end.",
  ["inputs", "schedules"], "all network sizes, ids, configurations and orders in which connections arrive",
  "The tests build networks of three parties over loopback, where connections arrive in whatever order the run produces.",
  [LIB + "net/network.h", "secure-computation-library/src/scl/net/network.cc", LIB + "net/tcp_utils.h"],
  [("construction", "secure-computation-library/src/scl/net/network.cc Create*"), ("acceptance", "secure-computation-library/src/scl/net/network.cc AcceptConnections")],
  [_all("NET__")], specs=["wire"])

P("C37", "Network configurations are validated and looked up by id",
  "A configuration keeps the id and the parties it is built from. It is rejected when its own id is not below the number of parties, when the id of a party is not, and when two parties share an id; hence every id below the number of parties occurs exactly once, and looking a party up by id gives the entry with that id wherever it stands in the list. A local configuration has the requested number of parties, with ids from zero on and consecutive ports from the base on.",
  ["inputs"], "all ids and lists of parties",
  "The tests read one file whose entries stand in the order of their ids, and a few malformed ones.",
  [LIB + "net/config.h", "secure-computation-library/src/scl/net/config.cc"],
  [("configuration", "secure-computation-library/src/scl/net/config.cc Validate, Localhost; config.h GetParty")],
  [_all("CFG__")], specs=["wire"])

P("C38", "The shared queue is a monitor, and first in first out",
  "Items leave the shared queue exactly once and in the order they entered. Popping and peeking wait while the queue is empty, whatever wakes them, and then act on the front of a non-empty queue; pushing appends at the back and always wakes a waiter. Every operation holds the queue's lock whenever it touches the items, uses what it learnt about them only within the same hold (after waiting or re-locking it looks again), and waits only with the lock held.",
  ["schedules", "histories"], "all interleavings of all operations, all queue contents, spurious wake-ups included",
  "The tests use one producer and one consumer and whatever schedule the run produces.",
  [LIB + "net/shared_deque.h"], [("monitor", LIB + "net/shared_deque.h Pop, Peek, PopFront, PushBack, Size")],
  [_all("SD__")], extra=["monitor.locks"], specs=["wire"])

P("C39", "Drivers run the phases in protocol order and overlap only independent ones",
  "The experiment programs run every phase of the protocol once (the online multiplication phases once per layer, layers in order), in an order equivalent to the protocol's: phases that touch the same state, send on the same channel or receive on the same channel stay in order, and nobody waits for a message of his own that he sends later. "
  "Phases that run concurrently in threads share no state that one of them writes, and never use the same end of a channel in the same direction; every thread is joined before its results are used and before it is destroyed.",
  ["schedules"], "all interleavings of the threads, all party ids, sizes and circuits (threshold at least one)",
  "The experiment programs are not run by the tests at all.",
  ["experiments", "src/tp/circuits.h", "src/tp/fi_prep.cc", "src/tp/dn07.cc"], [("drivers", "experiments/ours.cc, experiments/dn07.cc main"), ("overlapped phases", "src/tp/fi_prep.cc, src/tp/dn07.cc")],
  [], extra=["concur.drivers"])

P("C40", "Discovery gives every party the same complete configuration",
  "A client of the discovery service announces its id and then its port. The server accepts one connection per other party, files the port announced on a connection, and the host known for that id, under the announced id, keeps its own entry under its own id, rejects an announced id that is not below the number of parties, and sends the resulting configuration - number of parties, then id, port and length-prefixed host of each, in order - to every party but itself. "
  "A client files every entry it receives under the id the entry carries, and both ends return the configuration with their own id; configurations with an id missing or repeated are rejected, and so are more than 255 parties.",
  ["inputs", "schedules"], "all numbers of parties, ids, ports and host names, and all orders in which parties connect",
  "The tests use three parties and two orders.",
  [LIB + "net/discovery", "secure-computation-library/src/scl/net/discovery"],
  [("server", "secure-computation-library/src/scl/net/discovery/server.cc"), ("client", "secure-computation-library/src/scl/net/discovery/client.cc")],
  [_all("DCC__"), _all("DSN__"), _all("DCS__"), _all("DCR__"), _all("DCL__"), _all("DSV__")], specs=["disc"])

P("C41", "Error-correcting reconstruction is Berlekamp-Welch decoding",
  "Robust Shamir reconstruction takes the first 3t+1 shares and points (fewer are rejected); for e = t, ..., 0 it asks for the monic error locator E of degree e and the polynomial Q of degree below 3t+1-e with Q(x_i) = y_i E(x_i) at every point, takes the first e for which the linear system determines them, "
  "and returns Q / E and E if the division leaves no remainder; otherwise it reports that the shares cannot be corrected. The short form uses the points 1, 2, ... and returns the quotient at 0.",
  ["inputs", "fault_sequences"], "all shares, points and thresholds, with the solver and the polynomial division as contracts of their own (C27, C24)",
  "The tests corrupt one or two shares of one sharing.",
  [LIB + "ss/shamir.h"], [("decoding", LIB + "ss/shamir.h ReconstructShamirRobust")],
  ["SCL__ReconstructShamirRobust__3", "SCL__ReconstructShamirRobust__2"], specs=["robust"])

for _i in ("C40", "C36", "C37", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35"):
    PROPS[_i]["assumptions"] = MACH
PROPS["C38"]["assumptions"] = MACH

EXPLAIN = ("Each obligation reduces one function of /repo (callees inlined, loops summarised over all trip counts) "
           "to normal forms of its observables: values sent and received per peer, calls made, exceptions, fields "
           "written, results. They are compared with the normal forms of a reference function. PROVED: identical. "
           "AGREE: written differently, and random interpretation (Gulwani and Necula) of both terms over random "
           "field elements, container sizes and object graphs does not separate them. Only a difference that it "
           "separates is reported. Nothing of /repo is executed.")
ASSUME = ["the reference functions in spec/*.cc state the intended behaviour",
          "gates, batches and layers that a function receives as distinct arguments are distinct objects",
          "scl containers and field operations mean what their names say (decided by the scl properties)",
          "arithmetic on sizes does not overflow"]
TECHNIQUE = "static analysis: interprocedural value numbering (gated normal forms) against a reference model"
NOTE = ("Whole-function semantic comparison on every path and trip count within the term language; complete for "
        "identical normal forms, otherwise an alarm needs a separating interpretation, so it misses differences that "
        "appear only at sizes or constants the interpretations do not reach. Trusts the reference functions in spec/, "
        "clang's AST, and the modelled meaning of std and scl containers.")

NA = {}


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  reason=reason)


VAL = ("Quantifies over computed values; no dataflow, typestate or structural rule decides it. ")
N("N01", "The protocol outputs what the circuit computes",
  "For every circuit and every choice of inputs, what the output owners obtain equals evaluating the circuit on the inputs in the clear.",
  ["programs", "inputs", "configurations"], "all circuits, inputs and parameters", "Tests evaluate a few fixed circuits.",
  ["src/tp/circuits/online.cc"], [("whole protocol", "src/tp/circuits/online.cc RunProtocol")],
  VAL + "It follows from the per-step properties C01-C12 by an algebraic argument about packed secret sharing, which is not a static analysis.")
N("N03", "Reconstruction inverts sharing",
  "For every secret, threshold and number of parties, reconstructing from sufficiently many shares produced by sharing yields the secret again, for additive, Shamir and packed sharing.",
  ["inputs", "configurations"], "all secrets, randomness and parameters", "Tests sample parameters.",
  ["secure-computation-library/include/scl/ss"], [("interpolation", "secure-computation-library/include/scl/ss/evpoly.h")],
  VAL + "Round-trip equality of interpolation is an algebraic identity.")
N("N05", "Elements survive printing and parsing",
  "Parsing the printed form of a field or ring element yields the element again.",
  ["inputs"], "all elements", "Tests sample a few constants.", ["secure-computation-library/include/scl/math/str.h"],
  [("printing and parsing", "str.h ToString, FromString")], VAL + "Round-trip equality of digit conversion is numerical.")
N("N07", "Shares reveal nothing below the threshold",
  "The joint distribution of any t parties' shares and received messages is independent of the other parties' secrets.",
  ["inputs", "configurations"], "all secrets and sets of t parties", "Tests look at single runs, never at distributions.",
  ["src/tp/fi_prep.cc", "secure-computation-library/include/scl/ss"], [("sharing", "secure-computation-library/include/scl/ss")],
  "A statement about probability distributions of runtime values; the necessary structural parts (fresh randomness, masks, degrees) are claimed as C08 and C14.")
N("N08", "Every protocol run terminates",
  "With honest parties and a reliable network, every party finishes every phase.",
  ["schedules", "configurations"], "all schedules and parameters", "Tests run one schedule.",
  ["src/tp/circuits/online.cc", "secure-computation-library/src/scl/net"], [("blocking receives", "secure-computation-library/src/scl/net")],
  "Liveness over schedules and socket buffering; the necessary structural part (every message sent is expected and vice versa) is claimed as C13.")
N("N09", "The linear solver finds a solution of every consistent system",
  "Solving a linear system that is not square returns a vector satisfying it whenever the system is consistent, and reports failure otherwise.",
  ["inputs"], "all matrices and vectors", "Tests solve a few systems.", ["secure-computation-library/include/scl/math/la.h"],
  [("Gaussian elimination", "la.h SolveLinearSystem")], "The implementation reports systems with redundant equations as unsolvable and documents and tests that; there is no guarantee to check beyond square systems (C27).")
