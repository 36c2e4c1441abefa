#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of the properties."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

L = "src/lib.rs"
PF = "src/pixel_format.rs"
D = "src/dispatcher.rs"
C = "src/convert_image/common.rs"
X = "src/convert_image/x86.rs"
S = "src/convert_image/sse2.rs"
A = "src/convert_image/avx2.rs"
N = "src/convert_image/neon.rs"
H = "include/dcv_color_primitives.h"
I = "src/cpu_info.rs"
KER = [X, S, A]

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, hook=hook, technique=technique, note=note, level=level))

FORCE = "instruction set override, compiled with --cfg dcp_verif only, so that every code path of this machine can be exercised"
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]},
        }) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "./build.sh release && ./build.sh checked",
    "hooks": {
        "guard": "--cfg dcp_verif, --cfg dcp_verif_neon",
        "enable": "build.sh compiles the library, as a path dependency of the harness, with RUSTFLAGS=\"--cfg dcp_verif --cfg dcp_verif_neon\" and DCP_VERIF_NEON naming the model of the neon instructions; build32.sh with --cfg dcp_verif",
        "source_commits": HOOK_COMMITS,
    },
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    } for p in P],
    "not_applicable": NOT_APPLICABLE,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
