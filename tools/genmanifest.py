import json,os,sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
T={
'C01':('explicit-state exploration of call histories on the real maps against a list-of-pairs model','model_checking','Exhaustive for all call histories of the stated length over 3 keys and 2 values on all 21 map types, and for single calls and call pairs at every position of larger maps; trusts the model (40 lines).'),
'C02':('explicit-state exploration of call histories, every state serialized on the real code and compared with the model','model_checking','As C01, with every serialization entry point compared in every state; trusts yaml.v3 and encoding/json as readers.'),
'C03':('exhaustive enumeration of bounded documents, executed on the real reader and writer against a reference model','model_checking','Exhaustive over the enumerated API documents (facet singles, pairs, triples, full documents, sizes); trusts yaml.v3 and the reference model.'),
'C04':('exhaustive enumeration of bounded documents, executed on the real reader and writer against a reference model','model_checking','Exhaustive over the enumerated libraries; trusts yaml.v3 and the reference model.'),
'C05':('exhaustive enumeration of bounded type declarations, executed on the real reader and writer against a reference model','model_checking','Exhaustive over the enumerated declarations of all 16 kinds in 8 positions; trusts yaml.v3 and the reference model.'),
'C06':('exhaustive enumeration of bounded documents, every accessor compared with a reference model','model_checking','Exhaustive over the enumerated API documents and libraries.'),
'C07':('exhaustive enumeration of bounded type declarations, every accessor compared with a reference model','model_checking','Exhaustive over the enumerated declarations of all 16 kinds in 8 positions.'),
}
for k,v in json.load(open(here+'/tools/techniques.json')).items(): T[k]=tuple(v)
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        t,l,n=T[i]
        checks.append(dict(property=i,quick_cmd='VERIF_TIER=quick ./check.sh %s'%i,thorough_cmd='VERIF_TIER=thorough ./check.sh %s'%i,technique=t,level=l,level_note=n))
    else:
        na.append(dict(property=i,reason='no check has been built for this property yet'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na)
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'unclaimed')
