"""Build the extractor and warm the fact cache for all translation units (optional: every check does what it needs)."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.dont_write_bytecode = True
import facts

facts.build_tool()
facts.gen_config()
facts.extract(facts.compiler_files())
print("ready")
