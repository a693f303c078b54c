# helper used while developing: commit hunks of the working diff in groups (args: file with "msg<TAB>hunk,hunk,.." lines)
import subprocess,sys,os
R=os.environ.get('VERIF_REPO','/repo')
d=subprocess.run(['git','-C',R,'diff','-U1'],capture_output=True,text=True).stdout
files=[];cur=None
for l in d.splitlines(True):
    if l.startswith('diff --git'): cur=[l]; hdr=cur; inh=False; hs=[]; files.append((hdr,hs)); inh=False
    elif l.startswith('@@'): hs.append([l]); inh=True
    elif inh: hs[-1].append(l)
    else: hdr.append(l)
allh=[(h,x) for h,hs in files for x in hs]
if len(sys.argv)<2:
    for i,(h,x) in enumerate(allh): print(i,h[0].split()[-1],x[0].strip(),[y.strip()[:70] for y in x[1:] if y[0] in '+-'][:2])
else:
    for line in open(sys.argv[1]):
        msg,hl=line.rstrip('\n').split('\t')
        byf={}
        for i in map(int,hl.split(',')):
            h,x=allh[i]; byf.setdefault(''.join(h),[]).append(''.join(x))
        p=''.join(h+''.join(v) for h,v in byf.items())
        r=subprocess.run(['git','-C',R,'apply','--cached','--recount','--unidiff-zero','-'] ,input=p,text=True,capture_output=True)
        if r.returncode: print(msg,r.stderr); sys.exit(1)
        subprocess.run(['git','-C',R,'commit','-qm',msg],check=True)
