#!/usr/bin/env python3
# Writes MANIFEST.json. Claimed = properties that have sub-checks in the harness.
import json,subprocess,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed=set(subprocess.check_output("grep -rhoE 'reg(Enum)?\\(\"C[0-9]+\"' %s/harness | grep -oE 'C[0-9]+' | sort -u"%V,shell=True,text=True).split())
TECH={
 'default':'property-based testing (rapid generators, shrinking) against a reference model',
 'C01':'property-based testing: grammar-directed JSON, compared with a reference reader and token-level compaction',
 'C02':'property-based testing: truncation, mutation, token soup and exhaustive short texts against a reference parser',
 'C03':'property-based testing: generated value streams, slices of the text as oracle',
 'C04':'stateful property-based testing: a fresh document as the oracle for a reused one',
 'C05':'stateful property-based testing: edit programs with stale, empty and foreign handles against a tree model',
 'C06':'property-based testing: navigation compared with a reference reading of the text',
 'C07':'property-based testing: numbers compared with math/big and strconv',
 'C08':'differential property-based testing against encoding/json',
 'C09':'stateful (model-based) property-based testing: edit programs against a plain tree model',
 'C10':'stateful (model-based) property-based testing: self, ancestor and repeated insertions against a tree model',
 'C11':'stateful (model-based) property-based testing over two or three documents',
 'C24':'property-based testing of generated concurrent programs under the race detector, sequential results as oracle',
 'C27':'property-based testing: generated struct types, generated values, the compiled generator output against encoding/json',
 'C28':'property-based testing: generated struct types and documents, the compiled generator output against encoding/json',
 'C29':'property-based testing: generated packages and option sets, a selection and naming model as oracle',
 'C32':'property-based testing: generated tool arguments, the emitted tables compared with their definitions; enumeration of all 256 bytes through the public API',
 'C30':'exhaustive enumeration of all 256 masks against a set model',
}
NOTE={
 'default':'Searches generated cases only: no proof. Trusts the reference model in the harness and encoding/json, strconv and math/big of the installed Go.',
 'C24':'Explores generated programs and whatever schedules the runtime takes; the race detector reports only accesses that occur in a run.',
 'C32':'All 256 byte values and all classes are enumerated; custom sets are generated.',
 'C30':'All 256 values of the type are enumerated; combinations for error texts are generated.',
}
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"VERIF_TIER=thorough ./check {i}",
          "technique":TECH.get(i,TECH['default']),"level":"exploration","level_note":NOTE.get(i,NOTE['default'])})
    else:
        na.append({"property":i,"reason":"its check is not built yet"})
m={"version":1,"setup_cmd":"./check setup","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: every check uses the public API or the built command line tools. Known and fixed findings: known-findings.json."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1);open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed;',len(na),'not')
