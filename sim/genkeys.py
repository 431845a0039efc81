#!/usr/bin/env python3
# Writes keys.cpp from the PEM fixtures.
import os, json
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys")
names = ["ec0", "ec1", "ec2", "ec3", "ec4", "ec5", "rsa0", "rsa1"]
out = "struct EmbKey { const char *name; const char *pem; bool rsa; };\nextern const EmbKey kEmbKeys[] = {\n"
for n in names:
    pem = open(f"{d}/{n}.pem").read()
    out += f'  {{"{n}", {json.dumps(pem)}, {"true" if n.startswith("rsa") else "false"}}},\n'
out += "};\nextern const int kNumEmbKeys = %d;\n" % len(names)
open(os.path.join(os.path.dirname(d), "keys.cpp"), "w").write(out)
