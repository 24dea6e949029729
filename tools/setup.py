#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import glue
print(glue.build("driver"))
if os.path.exists(os.path.join(glue.VERIF, "analyzer", "engine", "src", "main.rs")):
    print(glue.build("engine", True))
