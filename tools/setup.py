#!/usr/bin/env python3
"""Checks that the tools the explorers need are present (each check compiles what it needs itself)."""
import shutil, subprocess, sys, os, tempfile
for t in ("clang++", "python3"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "t.cpp"); open(src, "w").write("#include <rapidjson/document.h>\n#include <yaml.h>\nint main() { yaml_parser_t p; return !yaml_parser_initialize(&p); }\n")
    subprocess.check_call(["clang++", "-fsanitize=address,undefined", src, "-o", src + ".out", "-lyaml"]); 
print("ok")
