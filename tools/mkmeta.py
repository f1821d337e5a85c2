#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "server/src/engine/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], claim=claim, na=na))
TECH = "contract-based deductive verification of the real code (%s); native bounded search only for counterexamples and stand-ins"
VERUS, KANI, BOTH = TECH % "Verus contracts on mechanically extracted functions", TECH % "Kani contracts/complete harnesses in place", TECH % "Verus contracts on mechanically extracted functions + Kani in place"

p("P01", "Query frames are parsed exactly and independently of fragmentation",
  "For every byte stream a client sends after login and every way the network splits it, the server recognises a query packet exactly when the bytes form one (`S<size>\\n<window>\\n<payload>` with a payload that spans exactly the announced size and a query window inside it), and the query text and parameter bytes it executes are exactly the announced slices. Bytes that are a prefix of a valid packet are never rejected, a complete packet is never left waiting, and bytes that cannot be completed to a packet never produce one; no input crashes the parser or makes it read outside the receive buffer.",
  ["inputs", "schedules"], "all byte strings, all fragmentations, all announced sizes including overflowing ones",
  "the tests parse a few well-formed packets under a few fragmentations; sizes are attacker controlled 64-bit numbers and fragmentation is unbounded",
  [E+"net/protocol/exchange.rs", E+"net/protocol/mod.rs", E+"mem/scanner.rs"],
  [("resume / QExchangeState", E+"net/protocol/exchange.rs"), ("scan_int", E+"net/protocol/mod.rs"), ("BufferedScanner", E+"mem/scanner.rs")],
  claim=("proof", BOTH, "proof for all inputs of every parser function under contract, given the raw pointer leaves of the scanner (assumed in Verus, checked by Kani up to 24 byte buffers)"))
p("P02", "The client handshake accepts exactly well-formed hellos, however fragmented",
  "For every byte stream a client sends on connect and every fragmentation, the handshake completes exactly when the bytes are a complete well-formed hello, and the protocol, exchange, query mode and authentication settings it yields, as well as the username and password slices, are exactly those in the bytes. Malformed headers are answered with the error for the offending field and never crash the server, never read outside the buffer, and never yield credentials other than those sent.",
  ["inputs", "schedules"], "all byte strings, all fragmentations, all 256^n header values, all announced credential lengths",
  "the tests run five or so handshakes; the header space and fragmentation space are unbounded",
  [E+"net/protocol/handshake.rs", E+"mem/scanner.rs", "sky-macros/src/lib.rs"],
  [("CHandshake::resume_with", E+"net/protocol/handshake.rs"), ("BufferedScanner", E+"mem/scanner.rs")],
  claim=("proof", BOTH, "proof for all inputs of every handshake function under contract, given the raw pointer leaves of the scanner (assumed in Verus, checked by Kani up to 24 byte buffers)"))
exec(open(os.path.join(R, "tools", "meta_more.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]], observe_at=q["observe"]))) + "\n")
        assert len(q["title"]) <= 80, q["title"]
        assert len([s for s in q["statement"].replace("e.g.", "").split(". ") if s]) <= 3, q["id"]
        assert bool(q["claim"]) != bool(q["na"]), q["id"]
m = dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=q["id"], quick_cmd="./check " + q["id"], thorough_cmd="env VERIF_TIER=thorough ./check " + q["id"], technique=q["claim"][1], level=q["claim"][0], level_note=q["claim"][2]) for q in P if q["claim"]],
    not_applicable=[dict(property=q["id"], reason=q["na"]) for q in P if q["na"]],
    notes="no hooks in /repo: harness files are attached to a mirror of the working tree that every run rebuilds (see DESIGN.md)")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(R, "properties.jsonl")): jsonschema.validate(json.loads(l), sch)
except ImportError:
    print("run with python3-vt to validate")
