"""What decides each property."""
PLANS = {
    "C01": {
        "records": [
            {"bin": "h_codec", "topic": "lossless", "module": "TraceStore"},
        ],
    },
    "C02": {
        "records": [
            {"bin": "h_codec", "topic": "format", "module": "TraceFormat"},
        ],
    },
    "H01": {"records": [{"bin": "h_header", "topic": "layout", "module": "TraceHeader"}]},
    "H02": {"records": [{"bin": "h_header", "topic": "accept", "module": "TraceHeader"}]},

    "E01": {"records": [{"bin": "h_bits", "topic": "codes", "module": "TraceBits"}]},

    "E02": {"records": [{"bin": "h_block", "topic": "block", "module": "TraceBlock", "flavour": "guarded"}]},
    "S02": {"records": [{"bin": "h_block", "topic": "order", "module": "TraceBlock", "flavour": "guarded"},
                        {"bin": "h_decode", "topic": "damage", "module": "TraceDecode"}]},

    "C04": {"records": [{"bin": "h_prefix", "topic": "reduced", "module": "TracePrefix"}]},
    "C05": {"records": [{"bin": "h_prefix", "topic": "prefix", "module": "TracePrefix"}]},
    "C06": {"records": [{"bin": "h_prefix", "topic": "testmode", "module": "TracePrefix"}]},

    "C03": {"records": [{"bin": "h_decode", "topic": "decode", "module": "TraceDecode",
                         "gen": {"module": "GenStreams", "args": {"N": 300}, "thorough": {"N": 1500}, "tlc": ["-seed", "$SEED"]}}]},

    "C07": {"records": [{"bin": "h_room", "topic": "room", "module": "TraceRoom"}]},

    "C08": {"records": [
        {"bin": "h_hostile", "topic": "hostile", "module": "TraceHostile", "flavour": "guarded"},
        {"bin": "h_hostile", "topic": "hostile", "module": "TraceHostile"}]},

    "W01": {"records": [{"bin": "h_wave", "topic": "lift", "module": "TraceWavelet"}]},
    "W02": {"records": [{"bin": "h_wave", "topic": "quant", "module": "TraceWavelet"}]},

    "T01": {"records": [{"bin": "h_color", "topic": "codec", "module": "TraceColor"}]},
    "T02": {"records": [{"bin": "h_color", "topic": "transform", "module": "TraceColor"}]},
    "T03": {"records": [{"bin": "h_color", "topic": "convert", "module": "TraceColor"}]},

    "F01": {"records": [{"bin": "h_fault", "topic": "faults", "module": "TraceStream"}]},

    "S03": {"records": [{"bin": "h_iter", "topic": "pieces", "module": "TraceIter"}]},

    "S01": {"records": [{"bin": "h_par", "topic": "pure", "module": "TracePure", "whole": True,
                         "flavours": ["seq", "default", "par"]}]},
}


def m(module, cfg=None, **kw):
    return dict({"module": module, "cfg": (cfg or module) + ".cfg"}, **kw)


def both(module, cfg=None):
    """a small configuration for the quick check and a larger one for the thorough check"""
    c = cfg or module
    return [m(module, c, quick_only=True), m(module, c + "_thorough", thorough_only=True)]


MODELS = {
    "C01": both("MC_Codec"),
    "C02": both("MC_Codec"),
    "C03": both("MC_Codec"),
    "C04": both("MC_Session"),
    "C05": both("MC_Session") + [m("MC_Session", "MC_Session_live")],
    "C06": both("MC_Session"),
    "C07": both("MC_Room") + [m("MC_Room", "MC_Room_live")],
    "C08": [m("MC_Hostile"), m("MC_Hostile", "MC_Hostile2"), m("MC_Hostile", "MC_Hostile_thorough", thorough_only=True)],
    "H01": both("MC_Header"),
    "H02": both("MC_Header"),
    "E01": both("MC_Codes") + both("MC_OneCode"),
    "E02": both("MC_Block") + [m("MC_Block", "MC_Block_sim", thorough_only=True, simulate=True,
                                 tlc=["-simulate", "num=4000", "-depth", "300"])],
    "S02": both("MC_Footprint") + both("MC_Parallel"),
    "S01": both("MC_Parallel") + both("MC_Footprint"),
    "F01": both("MC_Stream"),
    "S03": both("MC_Pieces"),
    "W01": both("MC_Wavelet"),
    "W02": both("MC_Quant"),
    "T01": both("MC_Color"),
    "T02": both("MC_Color", "MC_Presets"),
    "T03": both("MC_Planes"),
}
for _id, _models in MODELS.items():
    PLANS[_id]["models"] = _models
