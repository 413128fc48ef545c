import json,subprocess
m={
"7380420":"G03",
"ad326bc":"L04",
"e9c1f18":"P10",
"d0168c0":"C06",
"75d529c":"L01","ffcd248":"L01","d7b517b":"L01","e983888":"L05","792a600":"L04","e4c1658":"L04","b99f038":"L04","ade16d9":"P02","48424ea":"P03","9f9e450":"P01","a97beb7":"P01","aa8c415":"P02","6b93cf7":"P04","93afe9a":"P06","ba6ae46":"P03","ecd8a07":"P02","7936843":"P07","b2cda46":"P03","9b8b111":"P05","6632c2e":"A01","fddac59":"A01","84e9293":"A01","070682a":"A02","c998cef":"F01","2ab2ea1":"F02","9df8503":"F02","b88ab76":"C01","b29783a":"C02","ad62a1a":"C02","032e875":"C02","534574b":"C01","6371cf7":"G02","bfdd83f":"G01","586cd94":"G01","cf908ea":"G01","f0575af":"G02","fb85b8f":"G02","013f1d6":"G03","34d12c9":"P07","8a02007":"P06","73afed1":"P03","c3086d6":"P01","24d5360":"P01","7ac3867":"G01","92a0ad5":"P01","9d000a2":"P03","e7ca3c9":"P03","59cc896":"F01","821e688":"F01","935542a":"C04","29dce5d":"F01","c48b998":"F01","9e51606":"F02","5ee7ae1":"X01","69c1e9a":"P07","571a0aa":"P03","aa1a5a9":"P06","9fdf1d0":"A03"}
log=subprocess.run("git -C /repo log --reverse --format=%h\x1f%s f436aa0..HEAD",shell=True,capture_output=True,text=True).stdout.strip().split("\n")
keep=[l for l in open("/verif/KNOWN_FINDINGS.jsonl") if '"open"' in l]
out="".join(keep)
for l in log:
    h,s=l.split("\x1f"); s=s.removeprefix("fix: ")
    p=m[h]
    out+=json.dumps({"status":"fixed","property":p,"commit":h,"what":s,"line":f"fixed: property={p} {h} {s}"},ensure_ascii=False)+"\n"
open("/verif/KNOWN_FINDINGS.jsonl","w").write(out)
