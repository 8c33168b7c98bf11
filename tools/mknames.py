"""writes sa/names.json, the private names of the reference tree (run once, on the tree the properties were written from)"""
import ast, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa import rename
P = '/repo/pipedream_solver/'
trees = {f[:-3]: ast.parse(open(P + f).read()) for f in sorted(os.listdir(P)) if f.endswith('.py')}
json.dump(rename.profile(trees), open(rename.FILE, 'w'), indent=0, sort_keys=True)
