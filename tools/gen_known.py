import subprocess
P={"f56a141":"C18","fd46374":"C17","197b4e1":"C11","8159fbe":"C11","c1cf343":"C09","38f2ad7":"C14","6460a85":"C10","1cff568":"C18","ea76654":"C14","be9c088":"C15","2362a9d":"C14","ec71dc4":"C10","7d65cc9":"C15","52cf45c":"C14","5b6a69c":"C15","492803f":"C10","2787deb":"C13","c36559a":"C13","e6134ff":"C17","8db9dd7":"C17","f5dad73":"C17","2b93273":"C17","5b5df99":"C10","0e5591d":"C10","be4d317":"C10","41fb7ba":"C20","d40c90e":"C16","d25c5ed":"C09","4de4e4f":"C09","edf8565":"C09","c77cf31":"C10","b3c06a1":"C10","c447535":"C10","fce2b17":"C11","6bcb94b":"C04","599f912":"C04","354ed44":"C04","eb25bd9":"C03","3e73d88":"C06","13c80a3":"C06","cd7de28":"C06","4eb76fd":"C21","f761d8c":"C21","c5632ce":"C21","f0d7969":"C21","c17f131":"C21","f7adfae":"C21","58f034c":"C21","a7015ef":"C21"}
out=["# Genuine defects of frli8848/DREAM that the checks found.","# fixed: property=<id> <commit> <what failed>        (suppresses nothing)","# known: property=<id> key=<violation key> | <what fails>   (the check prints it as KNOWN-FINDING and stays quiet about this key only)"]
for l in subprocess.check_output("git -C /repo log --reverse --format='%h %H %s' 588fe46..HEAD",shell=True,text=True).splitlines():
    h,H,s=l.split(" ",2)
    assert s.startswith("fix: ")
    out.append("fixed: property=%s %s %s"%(P[h],H[:12],s[5:]))
K=[("C21","das:policy:stop","das on the device: data outside the A-scans are dropped without an error although err_level is 'stop' (cl_das has no out-of-bounds report)"),
("C21","das:policy:warn","das on the device: data outside the A-scans are dropped without a warning although err_level is 'warn' (cl_das has no out-of-bounds report)"),
]+[("C21","%s:policy:%s"%(f,e),"%s on the device: contributions outside the window are dropped without %s although err_level is '%s' (the kernel has no out-of-bounds report)"%(f,w,e)) for f in ("dreamrect","dreamcirc") for e,w in (("stop","an error"),("warn","a warning"))]+[
("C21","das_uni:per-point delays","das_uni accepts a delay per image point and uses the first one for all of them (extra_src/oct_das_uni.cc, delay[0])")]
for p,k,w in K: out.append("known: property=%s key=%s | %s"%(p,k,w))
open("/verif/known_findings.txt","w").write("\n".join(out)+"\n")
