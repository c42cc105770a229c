"""fails when two functions of a module have one name (the later silently replaces the earlier)"""
import ast, collections, glob, os, sys
bad = 0
for p in glob.glob(os.path.join(os.path.dirname(__file__), "..", "*", "*.py")):
    for k, n in collections.Counter(x.name for x in ast.parse(open(p).read()).body if isinstance(x, ast.FunctionDef)).items():
        if n > 1:
            print(p, k)
            bad = 1
sys.exit(bad)
