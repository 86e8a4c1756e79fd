"""Which scenario families and design models decide which property."""

ISOLATED = {"histories", "storms", "twins", "edited", "readdressed", "after_failure", "latecomers", "nested", "preemptions", "schedules"}

ASSUMPTIONS = [
    "CPython 3.12 with its codec, binascii and Unicode databases",
    "TLC and the TLA+ CommunityModules evaluate the specification correctly",
    "code pages ascii, latin-1, cp500, cp037, cp1252, koi8-r, cp437, cp273, utf-8, utf-16-be stand for all text encodings of fields",
]

# sizes of the design models; 0 = everything
SIZES = {
    "MC_Sched": {"quick": {"PAIRS": 6, "SWITCHES": 2}, "thorough": {"PAIRS": 30, "SWITCHES": 2}},
    "MC_Session": {"quick": {"STARTS": 40, "STEPS": 6, "BRANCH": 2}, "thorough": {"STARTS": 200, "STEPS": 8, "BRANCH": 2}},
    "MC_Pretty": {"quick": {"DOCS": 400, "WIDTHS": 6}, "thorough": {"DOCS": 4000, "WIDTHS": 20}},
    "MC_Bitmap": {"quick": {"SETS": 30}, "thorough": {"SETS": 700}},
    "MC_Message": {"quick": {"DOCS": 20, "WIRES": 10}, "thorough": {"DOCS": 400, "WIRES": 0}},
    "MC_Starter": {"quick": {"FIELDS": 0, "SIZES": 3, "BUT": 2}, "thorough": {"FIELDS": 0, "SIZES": 0, "BUT": 20}},
    "MC_Custom": {"quick": {"BRANCH": 2, "KEYS": 1, "COPIES": 3, "STEPS": 6}, "thorough": {"BRANCH": 1, "KEYS": 2, "COPIES": 4, "STEPS": 9}},
    "MC_Serial": {"quick": {"DOCS": 0, "WIRES": 30, "CHOICE": 2, "SPECTRIPS": 1, "TRIPS": 2},
                  "thorough": {"DOCS": 0, "WIRES": 0, "CHOICE": 3, "SPECTRIPS": 2, "TRIPS": 3}},
    "MC_Field": {"quick": {"SPECS": 100, "VALUES": 60, "WIRES": 60, "LONG": 10, "FULL": 0},
                 "thorough": {"SPECS": 700, "VALUES": 150, "WIRES": 150, "LONG": 40, "FULL": 1}},
}

CHECKS = {
    "C01": {"mix": [("resembling", 150), ("heavy", 3), ("roundtrip", 700), ("allfields", 200, {"specs": 1}), ("lengths", 300, {"long": 2}), ("binaries", 150), ("texts", 100),
                    ("encode_bitmaps", 60), ("headers", 80), ("extremes", 150)], "models": ["MC_Field", "MC_Bitmap"]},
    "C02": {"mix": [("resembling", 60), ("wires", 500), ("heavy", 3), ("roundtrip", 200), ("bitmaps", 250), ("binaries", 250), ("prefixes", 600), ("damaged", 500), ("lengths", 150),
                    ("texts", 80), ("headers", 100), ("extremes", 100)], "models": ["MC_Field", "MC_Bitmap"]},
    "C03": {"mix": [("encode_bitmaps", 420), ("allfields", 189, {"specs": 1}), ("roundtrip", 300), ("keys", 60), ("headers", 60)], "models": ["MC_Bitmap", "MC_Message"]},
    "C04": {"mix": [("wires", 100), ("heavy", 2), ("bitmaps", 700), ("garbage", 250), ("allfields", 120, {"specs": 1}), ("damaged", 400), ("headers", 60)], "models": ["MC_Bitmap", "MC_Message"]},
    "C05": {"mix": [("resembling", 100), ("wires", 150), ("heavy", 3), ("roundtrip", 500), ("allfields", 189, {"specs": 1}), ("bitmaps", 150), ("encode_bitmaps", 150), ("headers", 200),
                    ("binaries", 100), ("keys", 80), ("extremes", 80)], "models": ["MC_Message", "MC_Bitmap"]},
    "C06": {"mix": [("resembling", 80), ("heavy", 1), ("lengths", 1500, {"long": 2}), ("encode_errors", 500), ("binaries", 200), ("headers", 150), ("texts", 100),
                    ("roundtrip", 150), ("extremes", 200)], "models": ["MC_Field"]},
    "C07": {"mix": [("resembling", 80), ("wires", 150), ("heavy", 4), ("prefixes", 2500), ("lengths", 700, {"long": 2}), ("damaged", 1200), ("decode_errors", 500), ("headers", 150),
                    ("binaries", 100), ("extremes", 200)], "models": ["MC_Field", "MC_Message"]},
    "C08": {"mix": [("resembling", 250), ("texts", 500), ("roundtrip", 300), ("decode_errors", 300), ("encode_errors", 300), ("headers", 100), ("extremes", 150)], "models": ["MC_Field", "MC_Message"]},
    "C09": {"mix": [("resembling", 150), ("binaries", 1300), ("roundtrip", 250), ("headers", 200), ("lengths", 300), ("allfields", 60, {"specs": 1}), ("extremes", 150)], "models": ["MC_Field"]},
    "C10": {"mix": [("heavy", 2), ("garbage", 700), ("damaged", 900), ("partial_specs", 400), ("decode_errors", 700), ("bitmaps", 250), ("prefixes", 800, {"vast": True}),
                    ("texts", 100), ("wrong_decode", 1), ("exotic", 300), ("binaries", 150), ("headers", 150), ("extremes", 120)], "models": ["MC_Message", "MC_Field"]},
    "C11": {"mix": [("value_types", 400), ("hostile_docs", 1300), ("encode_errors", 800), ("partial_specs", 300), ("keys", 400), ("texts", 100), ("wrong_encode", 1), ("exotic", 300),
                    ("binaries", 150), ("lengths", 200), ("headers", 150), ("extremes", 120)], "models": ["MC_Message", "MC_Field"]},
    "C12": {"mix": [("resembling", 60), ("heavy", 4), ("decode_errors", 1500), ("damaged", 900), ("prefixes", 700), ("partial_specs", 200), ("bitmaps", 250), ("texts", 150),
                    ("headers", 200), ("binaries", 200), ("extremes", 150)], "models": ["MC_Message", "MC_Field"]},
    "C13": {"mix": [("resembling", 40), ("heavy", 3), ("encode_errors", 1500), ("keys", 300), ("lengths", 500), ("partial_specs", 200), ("texts", 120), ("headers", 200),
                    ("binaries", 250), ("extremes", 200)], "models": ["MC_Message", "MC_Field"]},
    "C14": {"mix": [("objects", 900), ("directed", 200), ("shown", 150), ("starter_intact", 100), ("keys", 200), ("encode_errors", 200), ("headers", 80),
                    ("encode_bitmaps", 100), ("hostile_docs", 200), ("value_types", 300)], "models": ["MC_Session", "MC_Message"]},
    "C15": {"mix": [("histories", 900), ("edited", 60), ("readdressed", 60), ("after_failure", 120), ("latecomers", 60), ("nested", 250), ("preemptions", 500), ("storms", 50), ("twins", 150),
                    ("schedules", 200)], "models": ["MC_Sched"]},
    "C16": {"mix": [("pp_docs", 900), ("pp_fold", 700), ("pp_long", 8), ("pp_results", 120)], "models": ["MC_Pretty"]},
    "C17": {"mix": [("pp_docs", 700), ("pp_fold", 1200), ("pp_long", 8), ("pp_results", 80)], "models": ["MC_Pretty"]},
    "C18": {"mix": [("starter", 250)], "models": ["MC_Starter", "MC_Custom"]},
    "C19": {"mix": [("heavy", 1), ("headers", 900), ("roundtrip", 200), ("decode_errors", 300), ("encode_errors", 300), ("damaged", 300)], "models": ["MC_Message", "MC_Field"]},
    "C20": {"mix": [("serial", 250), ("raised_classes", 100)], "models": ["MC_Serial"]},
    "C21": {"mix": [("keys", 600), ("control", 300), ("hostile_docs", 300), ("encode_bitmaps", 100)], "models": ["MC_Message", "MC_Bitmap"]},
    "C22": {"mix": [("extremes", 80), ("heavy", 2), ("types_", 400), ("roundtrip", 150), ("headers", 60), ("keys", 150), ("damaged", 60)], "models": ["MC_Message", "MC_Session"]},
}
