"""Which harness parts decide which property (read by ./check and tools/gen_manifest.py)."""
LEVEL = "exploration"
PARTS = {
    "h1": ("rust", "h1"),
    "h3": ("rust", "h3"),
    "h4": ("rust", "h4"),
    "js": ("nodewasm", "ts"),
    "ts": ("node", "ts/run.mjs"),
}
SHIM = "The arkworks and blake3 crates are not available offline; the code under test is compiled against API-compatible stand-ins (shims/) that implement the real BN254 field, curve and pairing, checked against independent vectors and laws."
TABLE = {
    "P10": {"parts": ["h1"]},
    "P11": {"parts": ["h1"]},
    "P13": {"parts": ["h1", "ts"]},
    "P16": {"parts": ["h1"]},
    "P17": {"parts": ["h1"]},
    "P18": {"parts": ["h1"]},
    "P19": {"parts": ["h1"]},
    "P20": {"parts": ["h1"]},
    "P22": {"parts": ["h1"]},
    "P23": {"parts": ["h1"]},
    "P15": {"parts": ["ts"]},
    "P21": {"parts": ["ts"]},
    "P25": {"parts": ["ts"]},
    "P27": {"parts": ["ts"]},
    "P28": {"parts": ["ts"]},
    "P29": {"parts": ["ts"]},
    "P32": {"parts": ["ts"]},
    "P01": {"parts": ["h3", "js"], "assumptions": [SHIM]},
    "P02": {"parts": ["h3", "js"], "assumptions": [SHIM]},
    "P03": {"parts": ["h3", "js"], "assumptions": [SHIM]},
    "P04": {"parts": ["h3", "js"], "assumptions": [SHIM]},
    "P05": {"parts": ["h3", "ts", "js"], "assumptions": [SHIM]},
    "P06": {"parts": ["h3"], "assumptions": [SHIM]},
    "P07": {"parts": ["h3"], "assumptions": [SHIM]},
    "P08": {"parts": ["h3"], "assumptions": [SHIM]},
    "P09": {"parts": ["h3", "js"], "assumptions": [SHIM]},
    "P12": {"parts": ["h3"], "assumptions": [SHIM]},
    "P14": {"parts": ["h3"], "assumptions": [SHIM]},
    "P24": {"parts": ["h3"], "assumptions": [SHIM]},
    "P30": {"parts": ["h3", "js"], "assumptions": [SHIM]},
    "P31": {"parts": ["h3"], "assumptions": [SHIM]},
    "P33": {"parts": ["h3"], "assumptions": [SHIM]},
    "P34": {"parts": ["h3", "ts"], "assumptions": [SHIM]},
    "P35": {"parts": ["h3"], "assumptions": [SHIM]},
    "P36": {"parts": ["h3"], "assumptions": [SHIM]},
    "P37": {"parts": ["ts"]},
    "P38": {"parts": ["h1", "h3", "ts"], "assumptions": [SHIM]},
    "P39": {"parts": ["h1", "h3"], "assumptions": [SHIM]},
    "P40": {"parts": ["h3", "js"], "assumptions": [SHIM]},
    "P41": {"parts": ["h4"], "assumptions": [SHIM]},
    "P42": {"parts": ["js"], "assumptions": [SHIM]},
    "P26": {"parts": ["js"], "assumptions": [SHIM]},
}
