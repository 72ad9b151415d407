import json,subprocess
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","8332114..HEAD"],text=True).splitlines()
props={"sliced nodes":"C01","networkx functions that make":"C10","subgraph sampling":"C09","shortest paths":"C17","total degree":"C01","self-edges of undirected":"C01","without couplings answer":"C03","intra-layer networks use the noEdge":"C03","coupling edges of multiplex":"C03","neighbours and strengths":"C03","networkx.Graph is restored":"C10","ER networks":"C07","UCINET":"C13","threshold":"C05","comparing":"C02","relabel":"C05","subnet_iter":"C15","overlap_degs":"C06","overlap degrees of weighted":"C17","cc_cycle":"C04","normalized coordinates":"C16","partitions":"C34","copying multiplex":"C05","replacing an intra":"C03","slices of":"C03","layout of":"C16","layouts of node-layers":"C16","isomorphisms of":"C17","overlay":"C05","aggregating":"C05","network models":"C07","random weights":"C07","ws networks":"C07","wrapped networkx functions":"C10","networkx view":"C11","web pages":"C12","failed writes":"C12","different hashes":"C14","drawing rule":"C18","drawing rules":"C18","three.js":"C18","drawings of directed":"C18","for isomorphism":"C17","dijkstra":"C32","averages of clustering":"C30","elementary cycles":"C30","gcc_aw_seplayers_adj":"C30","summing links":"C05","orbit_counts_all":"C34","independent graphlet":"C34"}
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    p=[v for k,v in props.items() if k in s]
    assert len(p)>=1,(l,p)
    fixed.append("fixed: property=%s %s %s"%(p[0],h,s[5:]))
try: k=json.load(open('/verif/known_findings.json'))
except Exception: k={"findings":[]}
if not k["findings"]:
    r=json.load(open('/verif/replays/C08-seed1-quick-run9.json'))
    k["findings"]=[{"property":"C08","kind":"nodelists:NameError","what":"pymnet.sampling.creators.random_nodelists raises NameError (xrange) on Python 3 instead of giving the seeded sample","scenario":r["scenario"]}]
k["fixed"]=fixed
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
