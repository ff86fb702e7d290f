#!/usr/bin/env python3
"""Records the token list of every function of the tree the contracts were written against."""
import json,subprocess,tempfile,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as t:
    subprocess.run([H+'/xtract/target/release/xtract','--src','/repo/src','--contracts',H+'/contracts','--out',t+'/g.rs','--map',t+'/m.json'],check=True)
    m=json.load(open(t+'/m.json'))
with open(H+'/contracts/baseline.tsv','w',encoding='utf-8') as f:
    for x in m['functions']: f.write(x['id']+'\t'+x['tokens']+'\n')
